PROP = "C01"
NEEDS = "a crash fault on link with timing after and only the destination regex set"
BREAKS = "link consults its crash faults with timing 'after' with source and destination exchanged, so a fault on the destination never fires (and one on the source can fire for the wrong path)"
EDITS = [(L, 'trigger_crash_fault ("link", "after", from, to, CLEAR)', 'trigger_crash_fault ("link", "after", to, from, CLEAR)')]
DEMO = '''
def crash_after_link():
    with FS() as f:
        f.put("/one", b"x")
        f.cmd("lazyfs::crash::timing=after::op=link::to_rgx=two")
        f.barrier()
        f.link("/two-src" if False else "/one", "/zzz")      # does not match
        assert f.alive()
        try:
            f.link("/one", "/two")
        except Dead:
            pass
        f.proc.wait(5)
        assert f.proc.returncode == -9, f.proc.returncode
        assert os.path.exists(f.root + "/two")

main(crash_after_link)
'''
