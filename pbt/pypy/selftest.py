def ping(x):
    return x
