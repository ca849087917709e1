import os


def L(*a):
    """Appends a record"""
    fd = os.open(os.environ["W23REC"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o666)
    os.write(fd, (" ".join(repr(x) for x in a) + "\n").encode("utf-8", "backslashreplace"))
    os.close(fd)
