PROP = "C20"
NEEDS = "a torn-op fault with parts_bytes, and a write at its occurrence that is longer than the parts together"
BREAKS = "the fault is injected into a write it does not describe: parts of it are persisted and the process crashes"
EDITS = [(L, '''                            if (sum!=size) {''', '''                            if (sum > size) {''')]
DEMO = '''
def other_length():
    inj = """
[[injection]]
type="torn-op"
file="ROOT/a"
parts_bytes=[4,4]
persist=[1]
occurrence=1
"""
    with FS(inj) as f:
        h = f.create("/a")
        f.write(h, 0, b"abcdefghij")
        f.write(h, 10, b"k")
        f.clear()
        assert f.backing("/a") == b"", f.backing("/a")
        f.write(h, 0, b"abcdefgh")
        assert f.get("/a") == b"abcdefgh"

main(other_length)
'''
