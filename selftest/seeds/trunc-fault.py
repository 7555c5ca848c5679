PROP = "C01"
NEEDS = "a clear fault on truncate with timing before; the truncated file has unsynced data"
BREAKS = "truncate consults its clear faults with timing 'before' only once it has already truncated the cached file"
EDITS = [(L, '''    this_ ()->trigger_configured_clear_fault ("truncate", "before", path, "");
''', ''), (L, '''    this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
    this_''', '''    this_ ()->trigger_configured_clear_fault ("truncate", "before", path, "");
    this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
    this_''')]
DEMO = '''
INJ = """
[[injection]]
type="clear-cache"
from="ROOT/a"
timing="before"
op="truncate"
occurrence=1
crash=false
"""

def clear_before_truncate():
    with FS(inject=INJ) as f:
        f.put("/a", b"0123456789", sync=True)
        h = f.open("/a")
        f.truncate("/a", 4)
        # the fault fires before the truncation: the truncated size survives in the cache
        assert f.getattr("/a").size == 4, f.getattr("/a").size

main(clear_before_truncate)
'''
