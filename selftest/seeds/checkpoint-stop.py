PROP = "C19"
NEEDS = "a checkpoint while the backing file of one cached file cannot be written"
BREAKS = "the checkpoint ends at the first file that fails; files after it are not written back"
EDITS = [(C, '''    for (auto const& it : this->file_inode_mapping)
        this->sync_owner (it.second, false, (char*)it.first.c_str ());
''', '''    for (auto const& it : this->file_inode_mapping)
        if (this->sync_owner (it.second, false, (char*)it.first.c_str ()) < 0)
            break;
''')]
DEMO = '''
def checkpointed():
    with FS() as f:
        n = 24
        for i in range(n):
            h = f.create("/f%d" % i)
            f.write(h, 0, b"new%02d" % i * 1000)
            f.close(h)
        for i in range(0, n, 3):
            os.unlink(os.path.join(f.root, "f%d" % i))
            os.mkdir(os.path.join(f.root, "f%d" % i))
        f.cmd("lazyfs::cache-checkpoint")
        f.barrier()
        for i in range(n):
            if i % 3:
                assert f.backing("/f%d" % i) == b"new%02d" % i * 1000, i

main(checkpointed)
'''
