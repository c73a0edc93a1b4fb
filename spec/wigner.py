"""Racah's formula."""
from math import factorial, sqrt


def racah(a, b, c, d, e, f, lo, hi):
    """the sum over t of Racah's formula for the 3j symbol of degrees a, b, c and orders d, e, f; lo..hi are the t with no negative factorial"""
    total = 0
    for t in range(lo, hi + 1):
        total += (-1) ** t / (
            factorial(t) * factorial(c - b + t + d) * factorial(c - a + t - e) * factorial(a + b - c - t) * factorial(a - t - d) * factorial(b - t + e)
        )
    delta = factorial(a + b - c) * factorial(a - b + c) * factorial(-a + b + c) / factorial(a + b + c + 1)
    orders = factorial(a + d) * factorial(a - d) * factorial(b + e) * factorial(b - e) * factorial(c + f) * factorial(c - f)
    return (-1) ** (a - b - f) * sqrt(delta) * sqrt(orders) * total
