PROP = "C15"
NEEDS = "a clear fault with timing 'after' on an operation that failed before its occurrence is reached"
BREAKS = "operations that fail are no longer counted for faults with timing 'after', so the fault fires one operation late"
EDITS = [(L, '''                    if (optiming == "before") {
                        current_count = clear_fault->counter.fetch_add(1) + 1;''', '''                    if (optiming == clear_fault->timing) {
                        current_count = clear_fault->counter.fetch_add(1) + 1;''')]
DEMO = '''
def failed_operation_counts():
    inj = """
[[injection]]
type="clear-cache"
from="ROOT/a"
to="ROOT/d"
op="rename"
timing="after"
occurrence=2
crash=false
"""
    with FS(inj) as f:
        f.put("/a", b"1")
        f.mkdir("/d")
        try:
            f.rename("/a", "/d")
            raise AssertionError("renamed over a directory")
        except OSError:
            pass
        f.rmdir("/d")
        f.rename("/a", "/d")
        assert "Triggered fault condition" in f.log(), "the second rename did not trigger"

main(failed_operation_counts)
'''
