"""Edits of whole items: item(file, header, new) replaces the item that starts with header, up to its closing brace."""
import os


def end(t, i):
    d = 0
    while i < len(t):
        c = t[i]
        if c == '"':
            if t[i - 1] == '#' and t[i - 2] == 'r':
                i = t.index('"#', i + 1) + 1
            else:
                i += 1
                while t[i] != '"':
                    i += 2 if t[i] == '\\' else 1
        elif c == "'" and t[i + 2:i + 3] == "'":
            i += 2
        elif t.startswith('//', i):
            i = t.index('\n', i)
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Exception('no end')


def item(f, head, new, repo='/repo'):
    t = open(os.path.join(repo, f)).read()
    assert t.count(head) >= 1, head
    i = t.index(head)
    j = end(t, t.index('{', i + len(head) - 1))
    return (f, t[i:j], new)


def body(f, head, new, repo='/repo'):
    """replaces only what is between the braces"""
    t = open(os.path.join(repo, f)).read()
    assert t.count(head) >= 1, head
    i = t.index(head)
    k = t.index('{', i + len(head) - 1)
    j = end(t, k)
    return (f, t[i:j], t[i:k] + '{\n' + new + '\n}')
