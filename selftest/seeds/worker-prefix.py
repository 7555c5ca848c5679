PROP = "C17"
NEEDS = "a command that is a misspelt clear-cache"
BREAKS = "any text that starts like clear-cache clears the cache"
EDITS = [(MN, '''} else if (!strcmp (buffer, "lazyfs::clear-cache")) {''', '''} else if (command_str.compare (0, 19, "lazyfs::clear-cache") == 0) {''')]
DEMO = '''
def only_its_name():
    with FS() as f:
        h = f.create("/f")
        f.write(h, 0, b"a" * 5000)
        f.cmd("lazyfs::clear-cache-usage")
        f.barrier()
        got = f.read(h, 0, 5000)
        assert got == b"a" * 5000, (len(got), got[:8])
        f.close(h)

main(only_its_name)
'''
