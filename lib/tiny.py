"""Small curves of prime subgroup order for exhaustive enumeration (without points of y = 0, whose
negation libcrypto gets wrong): name, p, a, b, n, gx, gy."""
TINY = [
    ('t5a0', 37, 0, 5, 7, 27, 9),
    ('t5a1', 37, 1, 1, 11, 10, 18),
    ('t7a0', 131, 0, 37, 31, 10, 111),
    ('t7a1', 131, 1, 15, 59, 27, 82),
    ('t11a0', 2053, 0, 632, 521, 1284, 1051),
    ('t11a1', 2053, 1, 1340, 997, 1341, 959),
    ('t13a0', 8219, 0, 3379, 2083, 6386, 6452),
    ('t13a1', 8219, 1, 5087, 4133, 5086, 402),
]
