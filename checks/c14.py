"""C14: Python BART models"""
from modellib import *


def main():
    ck = Check("C14")
    return model_check_main(ck, "py", "bart", 1, 400)
