import numpy as np


def array1(arr):
    return '[' + ', '.join([f'{x:.3f}' for x in arr]) + ']'


def array1_int(arr):
    return '[' + ', '.join([f'{x}' for x in arr]) + ']'


def array2(arr):
    return '[' + ',\n'.join([array1(row) for row in arr]) + ']'


def array2_int(arr):
    return '[' + ',\n'.join([array1_int(row) for row in arr]) + ']'


def array3(arr):
    return '[' + ',\n'.join([array2(row) for row in arr]) + ']'


def array3_int(arr):
    return '[' + ',\n'.join([array2_int(row) for row in arr]) + ']'
