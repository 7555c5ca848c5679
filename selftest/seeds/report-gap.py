PROP = "C18"
NEEDS = "a file of which only some blocks, but not the first, are unsynchronised"
BREAKS = "the report leaves out the unsynchronised blocks that follow a synchronised one"
EDITS = [(E, '''            if (not is_synced)
                res.push_back (std::make_tuple (it''', '''            if (is_synced)
                break;
            else
                res.push_back (std::make_tuple (it''')]
DEMO = '''
def reported():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=64") as f:
        h = f.create("/f")
        f.write(h, 0, b"a" * 4096 * 3)
        f.fsync(h)
        f.write(h, 4096 * 2, b"b" * 4096)
        f.cmd("lazyfs::unsynced-data-report")
        f.barrier()
        log = f.log()
        assert "(block 2) to (block 2)" in log, log[-1500:]
        f.close(h)

main(reported)
'''
