"""C20: R BCF models"""
from modellib import *


def main():
    ck = Check("C20")
    return model_check_main(ck, "r", "bcf", 2, 420)
