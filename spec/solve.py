"""Reference: rows of a stored solution."""
import numpy as np


def of_order(eigenvalues, eigenvectors, orders, m):
    rows = orders == m
    return eigenvalues[rows], eigenvectors[rows]
