property = 'C21'
file = 'python/getdist/inifile.py'
edits = [("""                        self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=if_not_defined)
""", """                        self.readFile(os.path.join(os.path.dirname(self.original_filename), ffile),
                                      if_not_defined=if_not_defined)
""")]
needs = 'A settings file that INCLUDEs two files, the first of them in another directory.'
what_it_breaks = 'The second included file is looked for next to the first one: an error, or the settings of another file of that name.'
demo = r'''
from gridlib import *


def go(g):
    g.write('s/main.ini', 'INCLUDE(sub/one.ini)\nINCLUDE(two.ini)\n')
    g.write('s/sub/one.ini', 'a = 1\n')
    g.write('s/two.ini', 'b = right\n')
    g.write('s/sub/two.ini', 'b = wrong\n')
    r = g.py("from getdist.inifile import IniFile; i = IniFile('s/main.ini'); print(i.string('a'), i.string('b'))")
    assert r.stdout.split() == ['1', 'right'], 'settings read: %r %s' % (r.stdout, r.stderr[-300:])


main(go, make=False)
'''
