PROP = "C20"
NEEDS = "a torn-seq fault on a file that is synchronised with fdatasync"
BREAKS = "fdatasync no longer ends the running sequence of writes, so the fault takes writes of two sequences for one"
EDITS = [(L, '''    this_ ()->restart_counter(path,"write"); //Reset''', '''    if (!isdatasync)
        this_ ()->restart_counter(path,"write"); //Reset''')]
DEMO = '''
def second_sequence():
    inj = """
[[injection]]
type="torn-seq"
op="write"
file="ROOT/a"
persist=[2]
occurrence=2
"""
    with FS(inj) as f:
        h = f.create("/a")
        f.write(h, 0, b"aaaa")
        f.write(h, 4, b"bbbb")
        f.fsync(h, data=True)
        f.write(h, 8, b"cccc")
        try:
            f.write(h, 12, b"dddd")
            f.write(h, 16, b"eeee")
            dead = False
        except Dead:
            dead = True
        assert dead, "no crash at the second write of the second sequence"
        assert f.backing("/a") == b"aaaabbbb" + bytes(4) + b"dddd", f.backing("/a")

main(second_sequence)
'''
