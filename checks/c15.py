"""C15: Python BCF models"""
from modellib import *


def main():
    ck = Check("C15")
    return model_check_main(ck, "py", "bcf", 2, 450)
