"""Reference mathematics."""
P = 2**448 - 2**224 - 1
L = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
