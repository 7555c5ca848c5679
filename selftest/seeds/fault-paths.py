PROP = "C16"
NEEDS = "a clear fault of the configuration file for rename without 'to'"
BREAKS = "a fault for an operation with two paths is accepted with one path"
EDITS = [(FA, '''if (this->from == "none" || this->to == "none") {''', '''if (this->from == "none" && this->to == "none") {''')]
DEMO = '''
def rejected():
    inj = """
[[injection]]
type="clear-cache"
from="ROOT/a"
op="rename"
timing="before"
occurrence=1
crash=false
"""
    with FS(inj) as f:
        f.put("/x", b"1")
        assert '"from" and "to" must be set' in f.log(), "accepted"

main(rejected)
'''
