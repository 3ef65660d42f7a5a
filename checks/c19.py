"""C19: R BART models"""
from modellib import *


def main():
    ck = Check("C19")
    return model_check_main(ck, "r", "bart", 1, 416)
