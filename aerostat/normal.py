def prove_equal(a, b, dom):
    return None
