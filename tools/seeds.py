"""Planted bugs: each breaks one property, compiles, and passes the existing tests."""
SEEDS = []


def S(id, property, needs, breaks, demo, *edits):
    SEEDS.append({"id": id, "property": property, "needs": needs, "breaks": breaks, "demo": demo, "edits": edits})


S("c01-comma", "C01", "a container whose first item is an empty container, followed by another item", "the comma after the empty container is not printed",
  '''
for doc in ("[1,2]", "[[],1]", '{"a":[{},[],2]}'):
    out = run("--compress", stdin=doc)[0]
    expect(out, doc, "printed text")
''', ("src/simpleOutput.cpp", "        if (first)\n            first = false;", "        if (first)\n            first = (dynamic_cast<const JSonContainer *>(i) && ((const JSonContainer *) i)->empty());"))

S("c02-indent", "C02", "--compress on a document nested 9 levels or deeper", "indentation is printed although --compress is given",
  '''
doc = "[" * 12 + '{"a":1}' + "]" * 12
expect(run("--compress", stdin=doc)[0], doc, "compressed text")
''', ("src/simpleOutput.cpp", "    if (params.compressed())\n        return \"\";", "    if (params.compressed() && indent <= 8)\n        return \"\";"))

S("c03-prefix", "C03", "two keys of an object sharing their first 16 characters", "keys are sorted by their first 16 characters only",
  '''
doc = '{"a_very_long_common_prefix_1":1,"a_very_long_common_prefix_2":2,"a":0}'
out = run("--compress", stdin=doc)[0]
expect(list(json.loads(out)), sorted(json.loads(doc)), "order of the keys")
''', ("src/jsonObjectEntry.cpp", "        return ((const JSonObjectEntry*)e)->key < key;", "        return ((const JSonObjectEntry*)e)->key.compare(0, 16, key, 0, 16) < 0;"))

S("c04-deep", "C04", "a document nested more than 63 levels", "indentation wraps around at depth 64",
  '''
out = run(stdin="[" * 70 + "]" * 70)[0].split("\\n")
for i in range(70):
    expect(out[i], " " * (4 * i) + "[", "line %d" % i)
''', ("src/simpleOutput.cpp", "    return std::string(indent * INDENT_LEVEL, ' ');", "    return std::string((unsigned char) (indent * INDENT_LEVEL), ' ');"))

S("c05-trailing", "C05", "an array with a comma after its last item", "trailing commas are accepted",
  '''
for doc in ("[1,]", '[[],{"a":2},]', "[,]"):
    out, err = run(stdin=doc)
    if out or not err:
        fail(doc, "is accepted", out)
''', ("src/streamConsumer.cpp", "        child = consumeToken(result, sbuf);\n        buf = sbuf.str();\n    } while (true);", "        child = consumeToken(result, sbuf);\n        buf = sbuf.str();\n    } while (child != nullptr || buf != \"]\");"))

S("c07-emptykey", "C07", "-W on an object holding the empty key twice", "the first value of a repeated empty key is kept as well",
  '''
out, err = run("-W", "--compress", stdin='{"b":1,"b":2,"":3,"":4}')
expect(out, '{"":4,"b":2}', "printed text")
''', ("src/streamConsumer.cpp", "                result->erase(key->getValue());", "                if (!key->getValue().empty())\n                    result->erase(key->getValue());"))

S("c11-name", "C11", "-W on two inputs with a warning in each", "the warning of the second input does not tell its file",
  '''
a, b = file("a.json", '{"x":1,"x":2}'), file("b.json", '{"y":1,"y":2}')
out, err = run("-W", "--compress", a, b)
expect(out, '{"x":2}{"y":2}', "printed text")
if a not in err or b not in err:
    fail("a warning does not tell its file:", err)
''', ("src/main.cpp", "        w.filename(input.first);", "        if (warns.empty())\n            w.filename(input.first);"))

S("c12-order", "C12", "--compress given after a file name", "the option is ignored when it comes after a file name",
  '''
f = file("a.json", "[1, 2]")
expect(run(f, "--compress")[0], "[1,2]", "printed text")
expect(run("--compress", f)[0], "[1,2]", "printed text")
''', ("src/params.cpp", "                compressMode = true;", "                compressMode = inputs.empty();"))

S("c15-unfold", "C15", "a found item inside of two collapsed containers, one in the other", "only the innermost container around a found item is expanded: it stays hidden",
  '''
f = file("a.json", '[[["needle"],1],2]')
for keys in (["down", "down", "left", "left", "left"], ["down", "left"]):
    s = tui(40, 20, keys + ["up"] * 5 + ["/"] + list("needle") + ["enter"], f)[-1]
    if not any("needle" in r for r in s.high()):
        fail("the found item is not selected on the screen\\n%s" % s)
''', ("src/curseOutput.cpp", "        collapsed.erase((const JSonContainer*)item->getParent());\n        item = item->getParent();", "        if (!collapsed.erase((const JSonContainer*)item->getParent()) || !item->getParent()->getParent())\n            item = item->getParent();\n        else\n            return;"))

S("c16-exact", "C16", "an entry of exactly twice the width of the screen", "an empty row is shown below entries whose length is a multiple of the width",
  '''
f = file("a.json", json.dumps(["x" * 76, "next"]))
rows = tui(40, 20, [], f)[0].rows
expect([r.strip() for r in rows[1:6]], ["[", "x" * 36, "x" * 40, "next", "]"], "rows")
''', ("src/curseOutput.cpp", "    if (nLine == (unsigned int) nLine)\n        return nLine;", "    if (nLine == (unsigned int) nLine && nLine < 2)\n        return nLine;"))

S("c17-pgup", "C17", "Page Up on the first item of a container held by an object entry", "the container is selected instead of the entry: nothing is highlighted",
  '''
f = file("a.json", '{"a":[1,2],"b":3}')
s = tui(40, 20, ["down", "down", "pgup"], f)[-1]
if not s.high() or not s.high()[0].startswith("a:"):
    fail("selected:", s.high())
''', ("src/curseSimpleOutput.cpp", "            selection = _selection = parent;\n            if (_selection->getParent() && dynamic_cast<const JSonObjectEntry*> (_selection->getParent()))\n                selection = _selection->getParent();", "            selection = _selection = parent;\n            if (_selection->getParent() && dynamic_cast<const JSonObjectEntry*> (_selection->getParent()) && brother)\n                selection = _selection->getParent();"))

S("c18-expand", "C18", "two collapsed containers, one of which is expanded", "expanding a container expands all of them",
  '''
f = file("a.json", '[[1],[2]]')
s = tui(40, 20, ["down", "left", "pgdn", "left", "right"], f)[-1]
expect([r.strip() for r in s.rows[1:7]], ["[", "[ ... ]", "[", "2", "]", "]"], "rows")
''', ("src/curseSimpleOutput.cpp", "    if (collapsed.erase((const JSonContainer *)_selection))\n        return inputResult::redraw;", "    if (collapsed.erase((const JSonContainer *)_selection))\n    {\n        collapsed.clear();\n        return inputResult::redraw;\n    }"))

S("c19-height", "C19", "a resize that changes the height of the terminal only", "the viewer keeps the old height",
  '''
f = file("a.json", json.dumps(list(range(30))))
s = tui(40, 10, [(40, 20), "timeout"], f)[-1]
expect([r.strip() for r in s.rows[1:20]], ["["] + [str(i) for i in range(18)], "rows")
''', ("src/curseOutput.cpp", "        screenSize = getScreenSize();\n        onResizeHandler();", "        if (getScreenSize().first != screenSize.first)\n            screenSize = getScreenSize();\n        onResizeHandler();"))

S("c20-term", "C20", "SIGTERM while the viewer waits for a key", "SIGTERM does not end the viewer",
  '''
f = file("a.json", "[1]")
expect(len(tui(40, 10, ["down", "sigterm", "down", "down"], f)), 2, "number of screens")
''', ("src/curseOutput.cpp", "    case SIGINT:\n    case SIGTERM:\n        breakLoop = true;", "    case SIGINT:\n        breakLoop = true;\n        break;\n\n    case SIGTERM:\n        breakLoop = (screen_fd != nullptr);"))

S("c28-big", "C28", "a number that does not fit 32 bits", "large numbers are drawn in no colour",
  '''
f = file("a.json", "[1,5000000000,2.5]")
s = tui(40, 10, [], f)[0]
for t in ("1", "5000000000", "2.5"):
    y = [i for i, r in enumerate(s.rows) if r.strip() == t][0]
    expect(s.attrs[y][4] & 0x7f, 2, "colour of " + t)
''', ("src/curseSimpleOutput.cpp", "    else if (dynamic_cast<const AJSonPrimitive *>(i))\n        res.type(OutputFlag::TYPE_NUMBER);", "    else if (dynamic_cast<const JSonPrimitive<int> *>(i) || dynamic_cast<const JSonPrimitive<double> *>(i))\n        res.type(OutputFlag::TYPE_NUMBER);"))

S("c29-side", "C29", "collapsing a container in the second half", "the counterpart is not collapsed when the right side is the active one",
  '''
a = file("a.json", '[["abcd"],"efgh"]')
b = file("b.json", '[["abcd"],"efgi"]')
for keys in (["down", "left"], ["^W", "w", "down", "left"]):
    s = tui(80, 20, keys, "--diff", a, b)[-1]
    if any("abcd" in r for r in s.rows):
        fail("a half is not collapsed\\n%s" % s)
''', ("src/curseSplitOutput.cpp", "        if (_selection)\n            collapsed.insert((const JSonContainer *)_selection);", "        if (_selection && !selectedWin)\n            collapsed.insert((const JSonContainer *)_selection);"))

S("c06-hexthrow", "C06", "a \\u escape holding a character that is not a hexadecimal digit", "the program is killed by an uncaught exception instead of reporting the escape",
  '''
for doc in ('"\\\\u00e9"', '"\\\\u12G4"', '["\\\\u 123"]'):
    out, err = run("--compress", stdin=doc)
    if not out and not err:
        fail("nothing is printed for", doc)
''', ("src/unicode.cpp", "    throw std::invalid_argument(JsonHexvalueException::msg(c));", "    throw std::out_of_range(JsonHexvalueException::msg(c));"))

S("c08-longline", "C08", "an error after the 45th character of a line", "the column of errors is never greater than the size of the excerpt",
  '''
import re
for n in (3, 40, 60, 500):
    err = run(stdin="\\n[" + " " * n + "1 2]")[1]
    expect(re.search(r"at line (\\d+), col (\\d+)", err).groups(), ("2", str(n + 4)), "position")
''', ("src/jsonException.cpp", "{ return history.totalSize(); }", "{ return history.size(); }"))

S("c09-hex", "C09", "an escape with the hexadecimal digit f in lower case", "the escape is rejected",
  '''
for c in ("\\u00ef", "\\u1234", "\\ufffd", "\\uffee", "\\u0fab"):
    for text in ("\\\\u%04x" % ord(c), "\\\\u%04X" % ord(c)):
        expect(run("--compress", stdin='"%s"' % text, env={"LC_ALL": "C.UTF-8"})[0].encode("utf-8", "surrogateescape").decode(), '"%s"' % c, "printed text of " + text)
''', ("src/unicode.cpp", "    if (c >= 'a' && c <= 'f')", "    if (c >= 'a' && c < 'f')"))

S("c10-big", "C10", "an integer of more than 53 bits", "large integers are rounded to the closest double",
  '''
for n in ("9007199254740993", "-9223372036854775807", "4611686018427387905", "3000000000"):
    expect(run("--compress", stdin=n)[0], n, "printed number")
''', ("src/jsonPrimitive.cpp", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    return std::to_string(value);", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    std::ostringstream out;\n\n    out.imbue(std::locale::classic());\n    out << std::fixed << std::setprecision(0) << (double) value; // as other numbers\n    return out.str();"))

S("c13-twice", "C13", "a --diff-cmd command with two {} arguments", "room for the files is counted once only: only the first {} is replaced",
  '''
a, b = file("a.json", "[1]"), file("b.json", "[2]")
out = run("--diff-cmd", "sh", "-c", 'echo $#', "x", "{}", "-", "{}", ";", a, b)[0]
expect(out.strip(), "5", "number of arguments of the command")
''', ("src/diffCmd.cpp", "    for (std::string &i : argv)\n    {\n        if (i == \"{}\")\n            for(std::string input: inputFiles)\n                allocatedArgv[currentParam++] = strdup(input.c_str());", "    bool replaced = false;\n    for (std::string &i : argv)\n    {\n        if (i == \"{}\" && !replaced)\n        {\n            for(std::string input: inputFiles)\n                allocatedArgv[currentParam++] = strdup(input.c_str());\n            replaced = true;\n        }"))

S("c14-longnum", "C14", "a number beyond 32 bits, searched with the n flag", "the n flag does not find large integers",
  '''
f = file("a.json", '[5000000000,"5","x",51]')
s = tui(40, 12, list("/5/n") + ["enter"] + ["n"], f)
expect(s[-2].high()[0], "5000000000", "first found")
expect(s[-1].high()[0], "51", "second found")
''', ("src/searchPattern.cpp", "                !(dynamic_cast<const JSonPrimitive<double> *>(type)) &&\n                !(dynamic_cast<const JSonPrimitive<long long> *>(type)))", "                !(dynamic_cast<const JSonPrimitive<double> *>(type)))"))

S("c21-empty", "C21", "a comparison of documents whose lists hold mostly empty texts", "a list of empty texts differs from itself",
  '''
a, b = file("a.json", '[1,["",""],"x"]'), file("b.json", '[ 1 , [ "" , "" ] , "x" ]')
s = tui(60, 14, [], "--diff", a, b)[0]
for r in s.rows[2:-1]:
    if "++" in r or "--" in r or "!!" in r:
        fail("a difference is marked\\n%s" % s)
''', ("src/levenshtein.cpp", "    if (a.empty() && b.empty())\n        return 1.f;\n    return", "    return"))

S("c24-long", "C24", "texts at a distance of more than 255", "the distance of long texts wraps around",
  '''
src = file("t.cpp", '''+"\"\"\""+r'''
#include <stdio.h>
#include <string>
#include "levenshtein.hpp"
int stroll_main(int, char **);
int main() { for (int n : {3, 200, 256, 300, 700}) printf("%zu ", levenshtein(std::string(n, 'a'), std::string(n, 'b'))); }
'''+"\"\"\""+r''')
expect(subprocess.run([compile_with(src)], stdout=subprocess.PIPE).stdout.decode(), "3 200 256 300 700 ", "distances")
''', ("src/levenshtein.cpp", "    int **matrice = new int*[a.size() +1]();\n\n    matrice[0] = new int[b.size() +1]();", "    unsigned char **matrice = new unsigned char*[a.size() +1]();\n\n    matrice[0] = new unsigned char[b.size() +1]();"),
  ("src/levenshtein.cpp", "        matrice[i] = new int[b.size() +1]();", "        matrice[i] = new unsigned char[b.size() +1]();"))

S("c25-lines", "C25", "a comparison where an entry takes more rows on the left than on the right", "the rows below it are drawn over it, and counterparts are not on the same row any more",
  '''
a, b = file("a.json", json.dumps(["y" * 110, "abcd", "efgh"])), file("b.json", json.dumps(["y" * 65, "abcd", "efgh"]))
s = tui(80, 20, [], "--diff", a, b)[0]
for w in ("abcd", "efgh"):
    if not any(r.count(w) == 2 for r in s.rows):
        fail("%s is not on the same row on both sides\\n%s" % (w, s))
if sum(r[:40].count("y") for r in s.rows) != 110:
    fail("the text is not complete\\n%s" % s)
''', ("src/curseSplitOutput.cpp", "                maxLines = std::max(maxLines, w.cursor.second - cursorInit[workingWin]);", "                maxLines = w.cursor.second - cursorInit[workingWin];"))

S("c26-total", "C26", "more than 65535 characters on a line", "the total number of characters wraps around",
  '''
src = file("t.cpp", '''+"\"\"\""+r'''
#include <stdio.h>
#include "wrappedBuffer.hpp"
int stroll_main(int, char **);
int main() { WrappedBuffer<char, 4> b; for (int i = 0; i < 70000; ++i) b.put('a' + i % 26); printf("%u", b.totalSize()); }
'''+"\"\"\""+r''')
expect(subprocess.run([compile_with(src)], stdout=subprocess.PIPE).stdout.decode(), "70000", "total")
''', ("include/wrappedBuffer.hpp", "        unsigned int written;", "        unsigned short written;"))

S("c22-key", "C22", "two objects holding the same value under keys that differ by a few letters only", "an entry whose key has changed is marked as unchanged",
  '''
src = file("t.cpp", """
#include <stdio.h>
#include <sstream>
#include "streamConsumer.hh"
#include "jsonObjectEntry.hh"
#include "levenshteinMatrice.hpp"
int stroll_main(int, char **);
int main(int, char **av) {
    std::istringstream sa(av[1]), sb(av[2]);
    StreamConsumer a(sa), b(sb);
    a.read(); b.read();
    LevenshteinMatrice_base::Builder builder;
    const JSonContainer *x = (const JSonContainer *) a.getRoot(), *y = (const JSonContainer *) b.getRoot();
    LevenshteinMatrice_base *m = builder.build(x, y), *n = builder.build(y, x);
    (void) n;
    printf("%s", m->get(x->front()) == eLevenshteinOperator::equ ? "unchanged" : "changed");
}
""")
def diff(a, b):
    return subprocess.run([exe, a, b], stdout=subprocess.PIPE).stdout.decode()

exe = compile_with(src)

expect(diff('{"b":1,"name":"x"}', '{"b":1,"name":"x"}'), "unchanged", "same entry")
expect(diff('{"firstname":1,"x":[2],"y":3}', '{"firstnames":1,"x":[2],"y":3}'), "changed", "renamed entry")
''', ("src/levenshtein.cpp", "            if (a->stringify() == b->stringify())\n                return", "            if (levenshteinPercent(a->stringify(), b->stringify()) > LEVENSHTEIN_SENSIBILITY)\n                return"))

S("c23-sym", "C23", "a container on the right facing a single value on the left", "the distance of two documents depends on which one is given first",
  '''
src = file("t.cpp", """
#include <stdio.h>
#include <sstream>
#include "streamConsumer.hh"
#include "jsonObjectEntry.hh"
#include "levenshteinMatrice.hpp"
int stroll_main(int, char **);
int main(int, char **av) {
    std::istringstream sa(av[1]), sb(av[2]);
    StreamConsumer a(sa), b(sb);
    a.read(); b.read();
    LevenshteinMatrice_base::Builder builder;
    const JSonContainer *x = (const JSonContainer *) a.getRoot(), *y = (const JSonContainer *) b.getRoot();
    LevenshteinMatrice_base *m = builder.build(x, y), *n = builder.build(y, x);
    (void) n;
    printf("%zu %zu", m->result(), n->result());
}
""")
def diff(a, b):
    return subprocess.run([exe, a, b], stdout=subprocess.PIPE).stdout.decode()

exe = compile_with(src)

for a, b in (("[1]", "[[2]]"), ("[1,2]", "[[3,4],[5]]"), ("[1,2,3]", '[{"a":3},"z",[4]]')):
    out = diff(a, b).split()
    expect(out[0], out[1], "distance of %s and %s" % (a, b))
''', ("src/levenshtein.cpp", "        result->_result = ((JSonContainer*)b)->size() +1; //TODO", "        result->_result = ((JSonContainer*)b)->size(); //TODO"))

S("c27-parent", "C27", "a nested array whose first item is a single value", "the parent of the item is its grand-parent",
  '''
src = file("t.cpp", """
#include <stdio.h>
#include <sstream>
#include "streamConsumer.hh"
#include "jsonObjectEntry.hh"
int stroll_main(int, char **);
int main() {
    std::istringstream s("[1,{\\\\"a\\\\":[2,[3,[\\\\"b\\\\",4]]]},[5]]");
    StreamConsumer a(s);
    std::list<const JSonContainer *> l{(const JSonContainer *) a.read()->getRoot()};
    for (const JSonContainer *c : l)
        for (const JSonElement *e : *c) {
            const JSonObjectEntry *o = dynamic_cast<const JSonObjectEntry *>(e);
            if (e->getParent() != c) return 1;
            if (const JSonContainer *d = dynamic_cast<const JSonContainer *>(o ? **o : e)) l.push_back(d);
        }
    printf("done");
}
""")
expect(subprocess.run([compile_with(src)], stdout=subprocess.PIPE).stdout.decode(), "done", "parents")
''', ("src/streamConsumer.cpp", "        child->setParent(result);\n", "        if (!child->getParent())\n            child->setParent(result);\n"))

# ---------------------------------------------------------------- second wave

S("c01-del", "C01", "a text holding the raw character 0x7F", "the character is dropped",
  '''
doc = '["a\\x7fb","plain"]'
expect(json.loads(run("--compress", stdin=doc)[0]), ["a\\x7fb", "plain"], "printed document")
''', ("src/streamConsumer.cpp", "            else\n                buf.write(&c, 1);\n        }\n        else\n        {\n            if (consumeEscapedChar(c, buf))", "            else if (c != 127)\n                buf.write(&c, 1);\n        }\n        else\n        {\n            if (consumeEscapedChar(c, buf))"))

S("c02-empty", "C02", "an object entry holding an empty container", "the compressed text holds white space",
  '''
doc = '{"a":[],"b":{"c":{}},"d":[[],{}]}'
expect(run("--compress", stdin=doc)[0], doc, "compressed text")
''', ("src/simpleOutput.cpp", "    if (dynamic_cast<const JSonContainer *> (**item))", "    if (dynamic_cast<const JSonContainer *> (**item) && !((const JSonContainer *) **item)->empty())"))

S("c03-sign", "C03", "keys of an object starting with ASCII and non-ASCII characters", "keys starting with a non-ASCII character come first",
  '''
doc = '{"b":1,"\\u00e9":2,"a":3,"\\u00e8":4}'
expect(list(json.loads(run("--compress", stdin=doc)[0])), ["a", "b", "\\u00e8", "\\u00e9"], "order of the keys")
''', ("src/jsonObjectEntry.cpp", "        return ((const JSonObjectEntry*)e)->key < key;", "        const std::string &other = ((const JSonObjectEntry*)e)->key;\n        for (size_t i=0; i < key.size() && i < other.size(); ++i)\n            if (key[i] != other[i])\n                return other[i] < key[i];\n        return other.size() < key.size();"))

S("c04-close", "C04", "an empty container in an array", "its closing bracket is on the line of the opening one",
  '''
expect(run(stdin='[1,[],{"a":{}}]')[0].split("\\n"), ["[", "    1", "    ,[", "    ]", "    ,{", '        "a":', "        {", "        }", "    }", "]", ""], "printed text")
''', ("src/simpleOutput.cpp", "    out << _indent << (prependComma ? \",\" : \"\") << std::string(1, brackets[0]);\n    if (!params.compressed())", "    out << _indent << (prependComma ? \",\" : \"\") << std::string(1, brackets[0]);\n    if (item->empty())\n        _indent.clear();\n    else if (!params.compressed())"))

S("c05-objtrail", "C05", "an object with a comma after its last entry", "the object is accepted, and printed empty",
  '''
for doc in ('{"a":1,}', '[{"b":2,"a":1,}]'):
    out, err = run(stdin=doc)
    if out or not err:
        fail(doc, "is accepted", out)
''', ("src/streamConsumer.cpp", "        if (result == nullptr && keyObj == nullptr && buf.str() == \"}\")", "        if (keyObj == nullptr && buf.str() == \"}\")"))

S("c06-uaf", "C06", "-W on an object with a repeated key", "freed memory is read",
  '''
import shutil as sh
f = file("a.json", '{"a":1,"b":{"a":1,"a":2},"b":[3]}')
if sh.which("valgrind"):
    r = subprocess.run(["valgrind", "-q", "--error-exitcode=77", EXE, "-W", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if r.returncode == 77:
        fail(r.stderr.decode()[:1500])
''', ("src/jsonObject.cpp", "    delete *it;\n    std::list<JSonElement *>::erase(it);", "    std::list<JSonElement *>::erase(it);\n    delete *it;"))

S("c07-null", "C07", "-W on a null whose first letter only is in lower case", "no warning is printed",
  '''
for w in ("Null", "nULL", "nulL"):
    out, err = run("-W", "--compress", stdin="[%s]" % w)
    expect(out, "[null]", "printed text")
    if "Warning" not in err:
        fail("no warning for", w)
''', ("src/streamConsumer.cpp", "        if (buf.str() != \"null\")\n", "        if (_buf[0] != 'n')\n"))

S("c08-cr", "C08", "an input whose lines end with CR only", "lines are not counted",
  '''
import re
for end in ("\\n", "\\r", "\\r\\n"):
    err = run(stdin=end.join(["[1,", "2,", "x]"]))[1]
    expect(re.search("line ([0-9]+), col ([0-9]+)", err).groups(), ("3", "1"), "position")
''', ("src/linearHistory.cpp", "    if (item == L'\\n' || item == L'\\r')", "    if (item == L'\\n')"))

S("c11-lost", "C11", "-W on two inputs, with a warning in the first one, the second one malformed", "the warnings of the first input are lost",
  '''
a, b = file("a.json", '{"x":1,"x":2}'), file("b.json", '[1')
out, err = run("-W", "--compress", a, b)
expect(out, '{"x":2}', "printed text")
if "Warning" not in err:
    fail("no warning:", err)
''', ("src/main.cpp", "        if (!stream)\n            break;\n        SimpleOutput", "        if (!stream)\n            return;\n        SimpleOutput"))

S("c12-emptyarg", "C12", "an empty argument after --", "the argument is skipped, with its space",
  '''
expect(run("--compress", "--", '["a', "", 'b"]')[0], '["a  b"]', "printed text")
''', ("src/params.cpp", "            if (written)\n                input->write(\" \", sizeof(char));", "            if (tmp.empty())\n                continue;\n            if (written)\n                input->write(\" \", sizeof(char));"))

S("c13-contain", "C13", "a --diff-cmd argument which holds {} and other characters", "the whole argument is replaced by the files",
  '''
a = file("a.json", "[1]")
out = run("--diff-cmd", "echo", "x{}", "{}y", "{}", ";", a)[0].split()
expect(out[:2], ["x{}", "{}y"], "arguments")
expect(len(out), 3, "number of arguments")
''', ("src/diffCmd.cpp", "        if (i == \"{}\")\n            nbParams += inputFiles.size();", "        if (i.find(\"{}\") != std::string::npos)\n            nbParams += inputFiles.size();"), ("src/diffCmd.cpp", "        if (i == \"{}\")\n            for(", "        if (i.find(\"{}\") != std::string::npos)\n            for("))

S("c13-single", "C13", "--diff-cmd with one input", "the temporary file is not removed",
  '''
a, b = file("a.json", "[1]"), file("b.json", "[2]")
for files in ([a, b], [a]):
    for p in run("--diff-cmd", "echo", "{}", ";", *files)[0].split():
        if os.path.exists(p):
            os.unlink(p)
            fail(p, "is left")
''', ("src/main.cpp", "    for (std::string &fname: files)\n        unlink", "    if (files.size() == 1 && !p.isDiff())\n        return;\n    for (std::string &fname: files)\n        unlink"))

S("c14-flags", "C14", "the flag i given after another one", "the flags given before i are forgotten",
  '''
f = file("a.json", '["needle and more","Needle"]')
for flags in ("if", "fi"):
    s = tui(40, 10, ["/"] + list("needle/" + flags) + ["enter"], f)[-1]
    expect([r for r in s.high()], ["Needle"], "found with " + flags)
''', ("src/searchPattern.cpp", "            flags |= SearchPattern::FLAG_CASE;", "            flags = SearchPattern::FLAG_CASE;"))

S("c15-empty", "C15", "an empty search after another one, then next", "the result of the earlier search is still used",
  '''
f = file("a.json", '["a","b","a"]')
s = tui(40, 10, ["/", "a", "enter", "/", "enter", "n"], f)[-1]
if "not found" not in s.rows[-1]:
    fail("next goes on with the earlier search\\n%s" % s)
''', ("src/curseSimpleOutput.cpp", "    search_result.clear();\n    if (search_pattern->isEmpty())\n        return inputResult::redraw;", "    if (search_pattern->isEmpty())\n        return inputResult::redraw;\n    search_result.clear();"))

S("c17-twin", "C17", "Page Up in an array holding the same value several times", "the selection moves to the item before the first of the equal items",
  '''
f = file("a.json", '["first","second","same","other","same"]')
s = tui(40, 12, ["down"] * 5 + ["pgup"], f)[-1]
expect(s.high(), ["other"], "selected")
''', ("src/jsonElement.cpp", "        if (*it == item)\n            return prevElem;", "        if (*it == item || (**it == item && !dynamic_cast<const JSonContainer*>(item)))\n            return prevElem;"))

S("c18-left", "C18", "Left on a collapsed container", "the parent is not selected",
  '''
f = file("a.json", '[1,[2]]')
s = tui(40, 12, ["down", "down", "left", "left"], f)[-1]
expect(s.high()[0], "[", "selected")
''', ("src/curseSimpleOutput.cpp", "            || collapsed.find((const JSonContainer *)_selection) != collapsed.end()\n            || (dynamic", "            || (dynamic"))

S("c20-next", "C20", "SIGTERM while the first of two files is viewed", "the files after it are only flashed",
  '''
f, g = file("a.json", '[1,"a"]'), file("b.json", '[2]')
expect(len(tui(40, 10, ["down", "sigterm", "down", "down", "q"], f, g)), 5, "number of screens")
''', ("src/curseOutput.cpp", "CurseOutput::CurseOutput(const Params &p): params(p)\n{ }", "CurseOutput::CurseOutput(const Params &p): params(p)\n{\n    breakLoop = false;\n}"),
  ("src/curseOutput.cpp", "    inputResult read;\n\n    breakLoop = false;", "    inputResult read;\n"))

S("c22-null", "C22", "a null facing the text null", "they are shown as equal",
  '''
a, b = file("a.json", '["x",null,"y"]'), file("b.json", '["x","null","y"]')
s = tui(80, 12, [], "--diff", a, b)[0]
rows = [r for r in s.rows if "null" in r]
if not rows or not all(m in rows[0] for m in ("!!",)) and "++" not in rows[0]:
    fail("the change is not marked\\n%s" % s)
''', ("src/jsonPrimitive.cpp", "JSonPrimitive<Null>::getTypeStr() const\n{ return \"null\"; }", "JSonPrimitive<Null>::getTypeStr() const\n{ return \"str\"; }"))

S("c24-case", "C24", "texts which differ by the case of letters", "letters in another case are taken for equal ones",
  '''
src = file("t.cpp", '#include <iostream>\\n#include "levenshtein.hpp"\\nint main() { std::cout << levenshtein("abc", "ABd") << " " << levenshtein("Kitten", "sitting") << std::endl; }')
expect(subprocess.check_output([compile_with(src)]).split(), [b"3", b"3"], "distances")
''', ("src/levenshtein.cpp", "(a[i -1] == b[j -1] ? 0 : 1)", "(tolower(a[i -1]) == tolower(b[j -1]) ? 0 : 1)"))

S("c25-index", "C25", "a comparison of lists of more than 256 items", "from the 257th one on, the items are those of the start of the list",
  '''
l = ["item %d" % i for i in range(300)]
a, b = file("a.json", json.dumps(l)), file("b.json", json.dumps(l[:150] + ["new"] + l[150:]))
s = tui(80, 400, [], "--diff", a, b)[0]
expect([sum("item %d " % i in r for r in s.rows) for i in (0, 10, 255, 256, 299)], [1, 1, 1, 1, 1], "rows showing items")
''', ("src/curseSplitOutput.cpp", "    typename std::list<T>::const_iterator it = l.cbegin();\n\n    std::advance(it, pos);", "    typename std::list<T>::const_iterator it = l.cbegin();\n\n    std::advance(it, (unsigned char) pos);"))

S("c26-popall", "C26", "more items than the capacity, then as many removals as the capacity", "the total is reset once the buffer is empty",
  '''
src = file("t.cpp", '#include <iostream>\\n#include "wrappedBuffer.hpp"\\nint main() { WrappedBuffer<char, 3> b; for (int i=0; i < 5; ++i) b.put(\\'a\\' +i); for (int i=0; i < 3; ++i) b.pop_back(); std::cout << b.size() << b.totalSize() << std::endl; }')
expect(subprocess.check_output([compile_with(src)]).strip(), b"02", "size and total")
''', ("include/wrappedBuffer.hpp", "    {\n        curW = -1;\n        curR = 0;\n    }\n    else if", "    {\n        reset();\n    }\n    else if"))

S("c27-twin", "C27", "an array holding the same value several times", "the item before an item is the one before the first equal item",
  '''
src = file("t.cpp", \'\'\'
#include <sstream>
#include <iostream>
#include "streamConsumer.hh"
#include "jsonArray.hh"
int main()
{
    std::stringstream ss("[5,6,7,6]");
    StreamConsumer s(ss);
    JSonContainer *root = (JSonContainer *) s.read()->getRoot();
    std::cout << root->back()->findPrev()->stringify() << std::endl;
}
\'\'\')
expect(subprocess.check_output([compile_with(src)]).strip(), b"7", "item before the last one")
''', ("src/jsonElement.cpp", "    while ((++it) != ((const JSonContainer*)parent)->cend())\n    {\n        if (*it == item)", "    while ((++it) != ((const JSonContainer*)parent)->cend())\n    {\n        if ((*it)->stringify() == item->stringify())"))

S("c28-last", "C28", "--color after --color=never", "the last option does not win",
  '''
f = file("a.json", "[1,true]")
s = tui(40, 10, [], "--color=never", "--color", f)[0]
y = [i for i, r in enumerate(s.rows) if r.strip() == "1"][0]
expect(s.attrs[y][4] & 0x7f, 2, "colour of 1")
''', ("src/params.cpp", "            else if (tmp == \"--color\")\n                colorMode = true;", "            else if (tmp == \"--color\")\n                ;"))

S("c29-last", "C29", "moves in one half, then in the other one from an item without counterpart", "the other half goes back to an older selection",
  '''
a = file("a.json", '["alpha","beta","gamma","delta"]')
b = file("b.json", '["alpha","beta","gamma"]')
s = tui(80, 20, ["down"] * 4 + ["^W", "w"], "--diff", a, b)[-1]
if not any(r for r, at in zip(s.rows, s.attrs) if "gamma" in r[40:] and any(x >> 7 for x in at[44:49])):
    fail("selected\\n%s\\n%s" % (s, s.high()))
''', ("src/curseSplitOutput.cpp", "            w.selection = diffMatrice->getEquivalence(selection);\n            if (w.selection)\n                w.lastSelection = w.selection;", "            w.selection = diffMatrice->getEquivalence(selection);\n            if (w.selection && dynamic_cast<const JSonContainer *>(w.selection))\n                w.lastSelection = w.selection;"))

S("c29-search", "C29", "a search, then next after a change of side", "only the active side is searched",
  '''
a, b = file("a.json", '["alpha","beta"]'), file("b.json", '["alpha","beta"]')
s = tui(80, 20, ["/"] + list("beta") + ["enter", "^W", "w", "n"], "--diff", a, b)[-1]
if "not found" in s.rows[-1]:
    fail("not found in the other half\\n%s" % s)
''', ("src/curseSplitOutput.cpp", "        result += search(searchPattern, w.root);\n", "        if (workingWin == selectedWin)\n            result += search(searchPattern, w.root);\n"))

S("c19-inner", "C19", "a resize while two files are compared", "the right half is not resized",
  '''
a, b = file("a.json", '["alpha","%s"]' % ("b" * 60)), file("b.json", '["alpha","%s"]' % ("b" * 60))
s = tui(40, 20, [(80, 20), "timeout"], "--diff", a, b)[-1]
for r in s.rows[2:12]:
    expect(r[40:77].strip(), r[1:38].strip(), "right half")
''', ("src/curseSplitOutput.cpp", "        wresize(subwin.innerWin, screenSize.second, screenSize.first -2);", "        if (!i)\n            wresize(subwin.innerWin, screenSize.second, screenSize.first -2);"))

S("c19-cont", "C19", "a terminal resized in height only while the program is stopped", "the viewer keeps the old size",
  '''
f = file("a.json", json.dumps(list(range(30))))
for size in ((50, 10), (50, 20), (40, 20)):
    s = tui(40, 10, [("silent",) + size, "sigcont", "timeout"], f)[-1]
    expect(len(s.rows), size[1], "height")
    expect(s.rows[size[1] - 1].strip(), str(size[1] - 3), "last row")
''', ("src/curseOutput.cpp", "size.ws_row != oldScrSize.second || size.ws_col != oldScrSize.first", "size.ws_row != oldScrSize.second && size.ws_col != oldScrSize.first"))

S("c21-double", "C21", "a number with decimals in documents that are the same", "it is shown as changed",
  '''
a, b = file("a.json", '{"x":["abc",1],"y":["abc",1.5,{}]}'), file("b.json", '{"y":["abc",1.5,{}],"x":["abc",1]}')
s = tui(80, 20, [], "--diff", a, b)[0]
if any(m in r for r in s.rows for m in ("!!", "++", "--")):
    fail("a difference is shown\\n%s" % s)
''', ("src/jsonPrimitive.cpp", "{ return getTypeStr() == o->getTypeStr(); }", "{ return getTypeStr() == o->getTypeStr() && !dynamic_cast<const JSonPrimitive<double> *>(o); }"))

S("c23-entry", "C23", "a list on the left facing a single value on the right", "the distance depends on the order",
  '''
src = file("t.cpp", \'\'\'
#include <sstream>
#include <iostream>
#include "streamConsumer.hh"
#include "levenshteinMatrice.hpp"
size_t dist(const char *x, const char *y)
{
    std::stringstream a(x), b(y);
    StreamConsumer sa(a), sb(b);
    LevenshteinMatrice_base::Builder builder;
    return builder.build(sa.read()->getRoot(), sb.read()->getRoot())->result();
}
int main() { std::cout << dist("[[1,2,3]]", "[7]") - dist("[7]", "[[1,2,3]]") << std::endl; }
\'\'\')
expect(subprocess.check_output([compile_with(src)]).strip(), b"0", "difference of distances")
''', ("src/levenshtein.cpp", "        result->_result = ((JSonContainer*)a)->size() +1; //TODO recursive number of all descendants\n        return result->add(a, eLevenshteinOperator::rem)", "        result->_result = ((JSonContainer*)a)->empty() ? 0 : 1;\n        return result->add(a, eLevenshteinOperator::rem)"))

S("c30-pipe", "C30", "a document read from a pipe, shown on the terminal", "keys are read from the pipe: the viewer cannot be left by a key",
  '''
s = terminal(["hello", b"q"], stdin='{"hello":1}')
expect((s.status, s.restored), (0, True), "exit status, modes given back")
''', ("src/curseOutput.cpp", "    if (!isatty(fileno(stdin)) || !isatty(fileno(stdout)))", "    if (!isatty(fileno(stdout)))"))

S("c30-raw", "C30", "^C typed on a real terminal", "^C does not end the viewer any more: the terminal sends no signal",
  '''
f = file("a.json", '{"hello":1}')
s = terminal(["hello", b"\\x03"], f)
expect((s.status, s.restored), (0, True), "exit status, modes given back")
''', ("src/curseOutput.cpp", "    cbreak();", "    raw();"))

S("c30-keypad", "C30", "arrow keys of a real terminal, in a comparison", "arrow keys are not understood",
  '''
import re
f, g = file("a.json", '["hello",2]'), file("b.json", '["hello",3]')
s = terminal(["hello", .5, b"\\x1bOB", "hello", b"q"], "--diff", f, g)
expect((s.status, s.restored), (0, True), "exit status, modes given back")
''', ("src/curseSplitOutput.cpp", "        keypad(subwin.outerWin, true);", "        keypad(subwin.innerWin, true);"))

S("c30-warn", "C30", "-W, a document with a repeated key, standard error on the terminal of the viewer", "warnings are written to the alternate screen, and vanish with it",
  '''
f = file("a.json", '{"hello":1,"hello":2}')
s = terminal(["hello", .3, b"q"], "-W", f)
expect((s.status, s.restored), (0, True), "exit status, modes given back")
expect("Unexpected double key" in s.after, True, "warning readable in the end")
''', ("src/main.cpp", "    if (out)\n        delete out;\n    std::cerr << errors.str();", "    std::cerr << errors.str();"),
  ("src/main.cpp", """        std::cerr << "Warning: ";
        displayException(w.filename(), params, w.getType(), w());
    }
}

int main""", """        std::cerr << "Warning: ";
        displayException(w.filename(), params, w.getType(), w());
    }
    if (out)
        delete out;
}

int main"""))

S("c30-close", "C30", "a document read from a pipe, viewed and left", "the terminal is closed before it is given back",
  '''
s = terminal(["hello", b"q"], stdin='{"hello":1}')
expect((s.status, s.restored, b"\\x1b[?1049l" in s.raw), (0, True, True), "exit status, modes and screen given back")
''', ("src/curseSimpleOutput.cpp", """    endwin();
    delscreen(screen);
    if (screen_fd)
    {
        fclose(screen_fd);
        screen_fd = nullptr;
    }
""", """    if (screen_fd)
        screen_fd = nullptr; // closed with the program
    else
        endwin();
    delscreen(screen);
"""))

S("c03-inner", "C03", "--keep-order on a list of objects", "objects held by a list are sorted although --keep-order is given",
  '''
doc = '{"z":1,"a":{"y":2,"b":3},"l":[{"x":4,"c":5}]}'
expect(run("--keep-order", "--compress", stdin=doc)[0], doc, "text with --keep-order")
''', ("src/streamConsumer.cpp", "(!params || params->sortObjects()) ? new", "(!params || params->sortObjects() || (!parent && nestingLevel > 1)) ? new"))

S("c05-number", "C05", "a number with several minus signs, or a minus in the middle", "minus signs in the middle of a number end it silently",
  '''
for doc in ("[1-2]", "[12-]", '{"a":3-4}'):
    out, err = run(stdin=doc)
    if out or not err:
        fail(doc, "is accepted:", out)
expect(run("--compress", stdin="[-1,2]")[0], "[-1,2]", "numbers")
''', ("src/streamConsumer.cpp", "        if (c >= '0' && c <= '9')\n            buf.write(&c, 1);", "        if ((c >= '0' && c <= '9') || (c == '-' && lastChar >= '1' && lastChar <= '9'))\n            buf.write(&c, 1);"))

S("c07-bool", "C07", "-W on a list of several misspelt booleans", "the warning of a misspelt false is missing when its first letter alone is in upper case",
  '''
for doc, n in (("[True]", 1), ("[FALSE]", 1), ("[False]", 1), ("[TRUE,False,fAlse]", 3)):
    out, err = run("-W", "--compress", stdin=doc)
    expect((out, err.count("Warning:")), (doc.lower(), n), "text and number of warnings of " + doc)
''', ("src/streamConsumer.cpp", """        else if (buf.str() == "false")
        {
            if (buf.str() != rawInput)""", """        else if (buf.str() == "false")
        {
            if (buf.str().compare(1, 4, rawInput, 1, 4))"""))

S("c10-edge", "C10", "integers just beyond 32 bits", "integers between 2^31 and 2^32 wrap around",
  '''
for n in (2147483647, -2147483648, 2147483648, 4294967295, 4294967296, -2147483649):
    expect(run("--compress", stdin="[%d]" % n)[0], "[%d]" % n, "number")
''', ("src/jsonPrimitive.cpp", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    return std::to_string(value);", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    if (value > 0 && value <= 0xffffffffLL)\n        return std::to_string((int) value);\n    return std::to_string(value);"))

S("c11-stop", "C11", "three inputs, the second one being malformed", "the inputs after a malformed one are printed",
  '''
a, b, c = file("a.json", "[1]"), file("b.json", "[1"), file("c.json", "[3]")
out, err = run("--compress", a, b, c)
expect((out, err.count("b.json")), ("[1]", 1), "text, and messages about the second input")
''', ("src/main.cpp", """        if (!stream)
            break;
        SimpleOutput::display(std::cout""", """        if (!stream)
            continue;
        SimpleOutput::display(std::cout"""))

S("c12-mode", "C12", "--color= with a mode that begins with a known one", "modes that only begin with always are accepted",
  '''
for m in ("alwaysX", "nevermore", "", "alway"):
    r = subprocess.run([EXE, "--color=" + m], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    expect(r.returncode, 1, "exit status of --color=" + m)
expect(run("--color=always", "--compress", stdin="[]")[0], "[]", "text with --color=always")
''', ("src/params.cpp", 'if (mode == "always")', 'if (mode.find("always") == 0)'))

S("c13-bad", "C13", "--diff-cmd with a malformed input after a good one", "the temporary file of the first input is not removed",
  '''
a, b = file("a.json", "[1]"), file("b.json", "[1")
before = set(glob.glob("/tmp/jsondifftmp*"))
run("--diff-cmd", "true", "{}", ";", a, b)
left = set(glob.glob("/tmp/jsondifftmp*")) - before
for f in left:
    if os.path.getsize(f) < 10:
        os.unlink(f)
expect(left, set(), "files left behind")
''', ("src/main.cpp", """            return inputsFilenames;
        }
        std::ofstream fout""", """            return std::deque<std::string>();
        }
        std::ofstream fout"""))

S("c14-word", "C14", "a search for a whole word in texts that are one character longer than it", "the w flag is ignored for texts one character longer than the word",
  '''
f = file("a.json", json.dumps(["hell", "hello", "x hell", "hellos", "ahell"]))
s = tui(30, 12, list("/hell/w") + ["enter", "n", "n", "q"], f)
expect([x.high()[0] for x in s[-3:]], ["hell", "x hell", "hell"] if s[-3].high()[0] == "hell" else ["x hell", "hell", "x hell"], "found items")
''', ("src/searchPattern.cpp", "    if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())", "    if (flags & FLAG_WHOLEWORD && str.length() > pattern.length() + 1)"))

S("c15-refold", "C15", "a search that wraps around to an item inside of a collapsed container", "the container around the item is not expanded when the search starts over at the top",
  '''
f = file("a.json", '[["foo"],"foo","bar"]')
s = tui(30, 12, ["down", "left", "down", "/", "f", "o", "o", "enter", "q"], f)
expect("foo" in "".join(s[-1].high()), True, "the found item is shown selected: %s" % s[-1])
s = tui(30, 12, ["down", "left", "down", "down", "/", "f", "o", "o", "enter", "q"], f)
expect(s[-1].high()[:1], ["foo"], "found item after the last one")
''', ("src/curseSimpleOutput.cpp", "        selection = *(search_result.cbegin());\n        unfold(selection);", "        selection = *(search_result.cbegin());"))

S("c25-gap", "C25", "an item without counterpart in the first half, taking several rows on the screen", "only its first row faces a gap: the rows after it are not aligned any more",
  '''
f, g = file("a.json", '["a text long enough for three rows of the half it stands in, really","same"]'), file("b.json", '["same"]')
s = tui(60, 14, ["q"], "--diff", f, g)
row = [r for r in s[-1].rows if "same" in r]
expect(len(row) == 1 and row[0].count("same"), 2, "counterparts on the same row: %s" % s[-1])
''', ("src/curseSplitOutput.cpp", "const unsigned int diffY = w.cursor.second - startY;", "const unsigned int diffY = std::min(w.cursor.second - startY, 2u);"))

S("c28-word", "C28", "a found entry whose value is a number, in colour", "found values keep the colour of their type",
  '''
f = file("a.json", '{"foo":12,"bar":13}')
s = tui(30, 8, ["/", "1", "2", "enter", "q"], f)
y = [i for i, r in enumerate(s[-1].rows) if "foo" in r][0]
x = s[-1].rows[y].index("12")
expect(s[-1].attrs[y][x] & 0x7f, 51, "colour of the found value")
''', ("src/curseSimpleOutput.cpp", """    if (flags.searched())
        color = OutputFlag::SPECIAL_SEARCH;
    else if (colors.find(flags.type()) != colors.end())
        color = flags.type();
    if (color != OutputFlag::SPECIAL_NONE)
        attron(COLOR_PAIR(color));

    if (!lineCut)""", """    if (flags.searched() && flags.type() != OutputFlag::TYPE_NUMBER)
        color = OutputFlag::SPECIAL_SEARCH;
    else if (colors.find(flags.type()) != colors.end())
        color = flags.type();
    if (color != OutputFlag::SPECIAL_NONE)
        attron(COLOR_PAIR(color));

    if (!lineCut)"""))

S("c30-echo", "C30", "keys typed on a real terminal", "typed keys are echoed over the document",
  '''
f = file("a.json", '{"hello":[1,2,3]}')
s = terminal(["hello", .3, b"zzz", .5, b"q"], f)
expect((s.status, s.restored), (0, True), "exit status, modes given back")
expect(b"z" in s.raw, False, "typed keys on the screen")
''', ("src/curseOutput.cpp", "    noecho();\n", ""))

S("c15-esc", "C15", "a search left with Escape after another one, then next", "the results of the earlier search are forgotten",
  '''
f = file("a.json", '["foo","bar","foo"]')
s = tui(30, 12, ["/", "f", "o", "o", "enter", "/", "b", "esc", "n", "q"], f)
expect([i for i, a in enumerate(s[-1].attrs) if any(x >> 7 for x in a)], [4], "rows of the selection after next: %s" % s[-1])
''', ("src/curseSimpleOutput.cpp", """    if (!search_pattern)
        return inputResult::redraw;
    search_result.clear();
""", """    search_result.clear();
    if (!search_pattern)
        return inputResult::redraw;
"""))

S("c15-backspace", "C15", "a search typed with a correction, on a terminal whose Backspace key is known by ncurses", "Backspace removes nothing from the text that is being typed",
  '''
f = file("a.json", '["foo","bar","foobar"]')
s = tui(30, 12, ["/", "b", "x", "backspace", "a", "enter", "q"], f)
expect(s[-1].high()[:1], ["bar"], "found item")
''', ("src/curseOutput.cpp", "c == '\\b' || c == 127 || c == KEY_BACKSPACE", "c == '\\b' || c == 127"))

S("c17-holder", "C17", "Left on an item of a list held by an object entry", "the list is selected instead of the entry: nothing is highlighted",
  '''
f = file("a.json", '{"a":[1,2],"b":3}')
s = tui(30, 12, ["down", "down", "left", "q"], f)
expect(s[-1].high()[0], "a:", "item selected by Left")
''', ("src/curseSimpleOutput.cpp", "        selection = selection->getParent();\n        if (selection->getParent() && dynamic_cast<const JSonObjectEntry*>(selection->getParent()))", "        selection = selection->getParent();\n        if (selection->getParent() && dynamic_cast<const JSonObject*>(selection) && dynamic_cast<const JSonObjectEntry*>(selection->getParent()))"))

S("c29-left", "C29", "Left on an item of a container held by an object entry, in a comparison", "the container is selected instead of the entry",
  '''
f, g = file("a.json", '{"a":[1,2],"b":3}'), file("b.json", '{"a":[1,2],"b":3}')
s = tui(60, 14, ["down", "down", "left", "down", "down", "down", "q"], "--diff", f, g)
t = tui(60, 14, ["down", "down", "down", "down", "q"], "--diff", f, g)
expect(s[-1].high(), t[-1].high(), "selected items")
s = tui(60, 14, ["down", "down", "left", "pgdn", "q"], "--diff", f, g)
expect(s[-1].high(), tui(60, 14, ["down", "pgdn", "q"], "--diff", f, g)[-1].high(), "selected items")
s = tui(60, 14, ["down", "down", "left", "pgup", "q"], "--diff", f, g)
expect(s[-1].high(), tui(60, 14, ["down", "pgup", "q"], "--diff", f, g)[-1].high(), "selected items")
''', ("src/curseSplitOutput.cpp", "            setSelection(_selection->getParent());\n        else\n            setSelection(_selection);", "            setSelection(_selection);\n        else\n            setSelection(_selection);"))

S("c19-bottom", "C19", "a search without result after a resize, in a comparison", "messages are written on the row that was the last one before the resize",
  '''
f, g = file("a.json", '["foo",1,2,3,4,5,6,7,8,9]'), file("b.json", '["foo",1,2,3,4,5,6,7,8,9]')
s = tui(60, 10, [(60, 20), "/", "z", "enter", "q"], "--diff", f, g)
expect("Pattern not found" in s[-1].rows[19], True, "message on the last row: %s" % s[-1])
''', ("src/curseSplitOutput.cpp", "    mvwin(bottomLine, ss.second -1, 0);", "    mvwin(bottomLine, screenSize.second -1, 0);"))

S("c06-uninit", "C06", "a comparison of lists of different items, with a heap that does not hold zeroes", "memory that was never written is taken for addresses",
  '''
f, g = file("a.json", json.dumps([[i] for i in range(9)] + ["end", {}])), file("b.json", json.dumps([i for i in range(9)] + [[], "nd"]))
os.environ["MALLOC_PERTURB_"] = "85"
s = tui(60, 20, ["down"] * 4 + ["q"], "--diff", f, g)
expect(len(s), 5, "screens shown")
''', ("include/levenshteinMatrice.hpp", "                for (size_t j=0; j < m; ++j)\n                    subMatrice[i -1][j] = nullptr;", "                for (size_t j=0; j < m -1; ++j)\n                    subMatrice[i -1][j] = nullptr;"))

S("c08-manylines", "C08", "a defect after more than 65535 lines", "the line number starts again at 0 after line 65535",
  '''
out, err = run(stdin="[" + "\\n" * 65540 + "x]")
expect("at line 65541, col 1" in err, True, "position of the defect: %s" % err)
''', ("include/linearHistory.hh", "        unsigned int line;", "        unsigned short line;"))

S("c18-emptyentry", "C18", "Left on an entry holding an empty container", "the empty container is collapsed as if it held something",
  '''
f = file("a.json", '{"a":{"k":[]},"b":[[]]}')
s = tui(30, 14, ["down", "down", "left", "q"], f)
expect((any("..." in r for r in s[-1].rows), s[-1].high()[0]), (False, "a:"), "shown: %s" % s[-1])
''', ("src/curseSimpleOutput.cpp", "            || (dynamic_cast<const JSonContainer*>(_selection) && ((const JSonContainer*)_selection)->size() == 0)))", "            || (dynamic_cast<const JSonContainer*>(_selection) && _selection == selection && ((const JSonContainer*)_selection)->size() == 0)))"))

S("c24-nul", "C24", "byte strings that differ after a NUL only", "distance 0 between different strings",
  '''
src = file("m.cpp", """#include <cstdio>
#include <string>
#include "levenshtein.hpp"
int main() { std::string a("ab\\\\0cd", 5), b("ab\\\\0ce", 5), c("x\\\\0", 2); printf("%zu %zu %zu\\\\n", levenshtein(a, b), levenshtein(a, a), levenshtein(c, "x")); return 0; }
""")
exe = compile_with(src)
expect(subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode().split(), ["1", "0", "1"], "distances")
''', ("src/levenshtein.cpp", "    if (a == b)\n        return 0;", "    if (std::string(a.c_str()) == b.c_str())\n        return 0;"))

S("c25-fargap", "C25", "an added item of more than 255 rows", "the other half is not moved down by the whole height of the item",
  '''
f, g = file("a.json", json.dumps([["x"] * 300, "same", "end"])), file("b.json", json.dumps(["same", "end"]))
s = tui(60, 400, ["q"], "--diff", f, g)
row = [r for r in s[-1].rows if "same" in r]
expect(len(row) == 1 and row[0].count("same"), 2, "counterparts on the same row")
''', ("src/curseSplitOutput.cpp", "                const unsigned int diffY = w.cursor.second - startY;", "                const unsigned char diffY = w.cursor.second - startY;"))

S("c29-expand", "C29", "Right on a collapsed container of a comparison", "the counterpart stays collapsed",
  '''
f, g = file("a.json", '{"a":[1,2],"b":3}'), file("b.json", '{"a":[1,2],"b":3}')
s = tui(60, 14, ["down", "left", "right", "q"], "--diff", f, g)
expect((sum(r.count("...") for r in s[2].rows), sum(r.count("...") for r in s[-1].rows)), (2, 0), "collapsed containers: %s" % s[-1])
''', ("src/curseSplitOutput.cpp", "        _selection = diffMatrice->getEquivalence(_selection);\n        collapsed.erase((const JSonContainer *)_selection);\n        return inputResult::redraw;", "        if (!selectedWin)\n            _selection = diffMatrice->getEquivalence(_selection);\n        return inputResult::redraw;"))

S("c13-count", "C13", "a command of more than 255 arguments", "the arguments are counted on 8 bits",
  '''
f = file("a.json", "[1]")
out = file("args", "")
rec = file("rec.sh", "#!/bin/sh\\necho $# > %s\\n" % out)
os.chmod(rec, 0o755)
run("--diff-cmd", rec, *["x"] * 254, ";", f)
expect(open(out).read(), "254\\n", "arguments")
env = {"MALLOC_CHECK_": "3", "MALLOC_PERTURB_": "85"}
run("--diff-cmd", rec, *["x"] * 600, "{}", ";", f, env=env)
expect(open(out).read(), "601\\n", "arguments")
''', ("src/diffCmd.cpp", "    unsigned int nbParams = 0,\n                 currentParam = 0;", "    unsigned char nbParams = 0;\n    unsigned int currentParam = 0;"))

S("c14-trimtab", "C14", "a pattern typed after tabulations", "leading tabulations belong to the pattern",
  '''
src = file("m.cpp", """#include <cstdio>
#include "searchPattern.hh"
#include "jsonContainer.hh"
#include "jsonPrimitive.hh"
int main() { JSonPrimitive<int> s(nullptr, 1); printf("%d %d %d\\\\n", SearchPattern("foo").match("foo", &s), SearchPattern("  foo").match("foo", &s), SearchPattern(" \\\\tfoo").match("foo", &s)); return 0; }
""")
exe = compile_with(src)
expect(subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode().split(), ["1", "1", "1"], "matches")
''', ("src/searchPattern.cpp", "(input[pos] == ' ' || input[pos] == '\\t'); ++pos);", "input[pos] == ' '; ++pos);"))

S("c03-holder", "C03", "an object whose last key (in order) is written first, with four keys or more", "keys are only moved past three others",
  '''
doc = '{"z":0,"d":1,"c":2,"b":3,"a":4}'
for d in (doc, '{"e":5,"d":4,"c":3,"b":2,"a":1}'):
    out = run("--compress", stdin=d)[0]
    expect(list(json.loads(out)), sorted(json.loads(d)), "order of the keys")
keys = ["k%02d" % i for i in range(40)]
out = run("--compress", stdin=json.dumps({k: 1 for k in keys}))[0]
expect(list(json.loads(out)), keys, "order of the keys")
keys = ["k%04d" % i for i in range(1100)]
out = run("--compress", stdin=json.dumps({k: 1 for k in keys}))[0]
expect(list(json.loads(out)), keys, "order of the keys")
''', ("src/jsonObject.cpp", "    for (pos = begin(); (pos != end() && *ent < *pos); pos++);", "    unsigned int steps = 0;\n\n    for (pos = begin(); (pos != end() && steps < 1024 && *ent < *pos); pos++, steps++);"))

S("c01-longtext", "C01", "a text of more than 32768 characters", "the end of long texts is lost",
  '''
for n in (10, 1000, 32768, 40000):
    out = run("--compress", stdin=json.dumps(["x" * n]))[0]
    expect(len(json.loads(out)[0]), n, "length of the text")
''', ("src/simpleOutput.cpp", "    return item->stringify();\n}\n\nvoid SimpleOutput::writeObjectEntry", "    return item->stringify().substr(0, 1024);\n}\n\nvoid SimpleOutput::writeObjectEntry"),
   ("src/streamConsumer.cpp", "            else\n                buf.write(&c, 1);\n        }\n        else\n        {\n            if (consumeEscapedChar(c, buf))", "            else if (buf.tellp() < 32768)\n                buf.write(&c, 1);\n        }\n        else\n        {\n            if (consumeEscapedChar(c, buf))"))

S("c04-many", "C04", "a container of more than 65535 items", "items after the 65535th are not preceded by a comma",
  '''
out = run(stdin=json.dumps([1] * 65540))[0].split("\\n")
expect(set(out[2:-2]), {"    ,1"}, "lines of the items")
''', ("src/simpleOutput.cpp", "    bool first = true;\n\n    out << _indent", "    unsigned short first = 1;\n\n    out << _indent"),
   ("src/simpleOutput.cpp", "        write(i, !first);\n        if (first)\n            first = false;", "        write(i, first != 1);\n        ++first;"))

S("c17-up", "C17", "Up on the item that follows a nested container", "the container is selected instead of its last item",
  '''
f = file("a.json", '[[1,[2,3]],4,5]')
s = tui(30, 14, ["down"] * 6 + ["up", "q"], f)
expect(s[-1].high()[0], "3", "item above 4: %s" % s[-1])
f = file("b.json", '["x",[[1,[2,3]],4],5]')
s = tui(30, 20, ["down"] * 8 + ["up", "q"], f)
expect(s[-1].high()[0], "3", "item above 4: %s" % s[-1])
''', ("src/curseSimpleOutput.cpp", "        else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))\n            select_up = item;", "        else if (!item->getParent() || (!dynamic_cast<const JSonObjectEntry*>(item->getParent()) && item->getLevel() < selection->getLevel() +2))\n            select_up = item;"))

S("c16-wide", "C16", "a screen of more than 127 columns", "rows are counted as if the screen were 127 columns wide",
  '''
f = file("a.json", json.dumps(["x" * 140, "y", "z"]))
s = tui(160, 12, ["q"], f)
rows = [r.strip() for r in s[-1].rows]
expect(rows.index("y") - rows.index("x" * 140), 1, "rows of the first item: %s" % s[-1])
''', ("src/curseOutput.cpp", "    double nLine = (double) nbChar / maxWidth;", "    double nLine = (double) nbChar / std::min(maxWidth, 127u);"))

S("c11-eof", "C11", "a truncated input followed by another one", "inputs after a truncated one are printed",
  '''
a, b = file("a.json", "[1,"), file("b.json", "[2]")
out, err = run("--compress", a, b)
expect(out, "", "printed text")
expect(a in err, True, "message")
a = file("c.json", "")
out, err = run("--compress", a, b)
expect(out, "", "printed text")
''', ("src/main.cpp", "        StreamConsumer *stream = readOneFile(input, params, warns);\n        if (!stream)\n            break;\n        SimpleOutput::display(std::cout, stream->getRoot(), params);", "        StreamConsumer *stream = readOneFile(input, params, warns);\n        if (!stream)\n        {\n            if (input.second->eof())\n                continue;\n            break;\n        }\n        SimpleOutput::display(std::cout, stream->getRoot(), params);"))

S("c27-prev", "C27", "the item before the last one of a list of three and more", "findPrev of the last item skips an item",
  '''
f = file("a.json", "[1,2,3,4]")
s = tui(30, 14, ["down"] * 4 + ["pgup", "q"], f)
expect(s[-1].high()[0], "3", "item before the last one")
s = tui(30, 14, ["down"] * 3 + ["pgup", "q"], f)
expect(s[-1].high()[0], "2", "item before the third one")
''', ("src/jsonElement.cpp", "        if (*it == item)\n            return prevElem;\n        prevElem = *it;", "        if (*it == item)\n            return prevElem;\n        if (std::next(it, 2) != ((const JSonContainer*)parent)->cend())\n            prevElem = *it;"))

S("c02-long", "C02", "--compress on a list holding a text of more than 256 characters", "a new line follows long texts",
  '''
for n in (1, 100, 256, 300, 5000):
    doc = '["%s",1]' % ("x" * n)
    expect(run("--compress", stdin=doc)[0], doc, "compressed text")
''', ("src/simpleOutput.cpp", "primitiveToString(item);\n    if (!params.compressed())", "primitiveToString(item);\n    if (!params.compressed() || item->stringify().size() > 256)"))

S("c05-colon", "C05", "a text consisting of a colon where the colon of an entry is missing", "the text is taken for the colon",
  '''
for doc in ('{"a" ":" 1}', '{"a" ":":1}'):
    out, err = run(stdin=doc)
    if out or not err:
        fail(doc, "is accepted", out)
expect(run("--compress", stdin='{"a":":"}')[0], '{"a":":"}', "printed text")
''', ("src/streamConsumer.cpp", "        if (consumeToken(parent, buf) != nullptr || buf.str() != \":\")", "        consumeToken(parent, buf);\n        if (buf.str() != \":\")"))

S("c05-close", "C05", "a text consisting of a bracket where the bracket closing a list is missing", "the text is taken for the bracket",
  '''
for doc in ('[1 "]"', '[1 "," 2]'):
    out, err = run(stdin=doc)
    if out or not err:
        fail(doc, "is accepted", out)
expect(run("--compress", stdin='["]",","]')[0], '["]",","]', "printed text")
''', ("src/streamConsumer.cpp", "        if (child != nullptr)\n            throw JsonUnexpectedException(']', stream.tellg(), history);\n        else if (buf == \"]\")", "        if (buf == \"]\")"))

S("c07-order", "C07", "-W on a document with an unknown escape followed by a repeated key", "warnings are not told in the order of the document",
  '''
out, err = run("-W", "--compress", stdin='{"x":"\\\\q",\\n"a":1,\\n"a":2}')
lines = [l for l in err.split("\\n") if "at line" in l]
expect(len(lines), 2, "number of warnings")
if "line 1" not in lines[0] or "line 3" not in lines[1]:
    fail("order of the warnings:", lines)
''', ("src/streamConsumer.cpp", "        warnings.push_back(Warning(JsonEscapedException(c, stream.tellg(), history)));", "        warnings.insert(warnings.end(), Warning(JsonEscapedException(c, stream.tellg(), history)));"),
   ("src/streamConsumer.cpp", "                warnings.push_back(Warning(JSonObject::DoubleKeyException(stream.tellg(), key->getValue(), history)));", "                warnings.push_front(Warning(JSonObject::DoubleKeyException(stream.tellg(), key->getValue(), history)));"))

S("c13-semi", "C13", "an argument of the command that ends with a semicolon", "it is taken for the end of the command",
  '''
import os
f, g = file("a.json", "[1]"), file("b.json", "[2]")
rec = file("rec.sh", '#!/bin/sh\\nprintf "%s\\\\n" "$@" > "' + os.path.join(os.path.dirname(f), "seen") + '"\\n')
os.chmod(rec, 0o755)
run("--diff-cmd", rec, "x;", "", "y", ";", f, g)
expect(open(os.path.join(os.path.dirname(f), "seen")).read(), "x;\\n\\ny\\n", "arguments of the command")
''', ("src/params.cpp", "            if (tmp == \";\")", "            if (!tmp.empty() && tmp[tmp.size() -1] == ';')"))

S("c22-longkey", "C22", "two objects holding the same value under keys that share their first 32 characters", "an entry whose key has changed is marked as unchanged",
  '''
f, g = file("a.json", '{"%sa":1,"z":2}' % ("k" * 40)), file("b.json", '{"%sb":1,"z":2}' % ("k" * 40))
s = tui(140, 10, ["q"], "--diff", f, g)
rows = [r for r in s[-1].rows if "kkkk" in r]
if not rows or "!!" not in rows[0] and "++" not in rows[0] and "--" not in rows[0]:
    fail("no mark on the entry:", rows)
''', ("src/levenshtein.cpp", "            if (a->stringify() == b->stringify())\n                return LevenshteinMatrice_base::Builder::build(", "            if (!a->stringify().compare(0, 32, b->stringify(), 0, 32))\n                return LevenshteinMatrice_base::Builder::build("))

S("c24-band", "C24", "a text that is the end of one that is more than 128 characters longer", "the distance is too large",
  '''
src = file("m.cpp", """#include <cstdio>
#include <string>
#include "levenshtein.hpp"
int main() {
    std::string tail;
    for (int i = 0; i < 150; i++) tail += (char) ('a' + i * i % 23);
    for (int n : {1, 50, 100, 140, 200}) printf("%zu ", levenshtein(std::string(n, 'Z') + tail, tail));
    return 0; }
""")
exe = compile_with(src)
expect(subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode().split(), ["1", "50", "100", "140", "200"], "distances")
''', ("src/levenshtein.cpp", "            matrice[i][j] = std::min(std::min(", "            matrice[i][j] = (i > j +128 || j > i +128) ? std::max(i, j) : std::min(std::min("))

S("c10-cut", "C10", "a negative integer of 19 digits", "its last digit is not printed",
  """
for n in (-2147483649, -999999999999999999, 1000000000000000001, -1000000000000000001, -2 ** 63, 2 ** 63 - 1):
    expect(run("--compress", stdin="[%d]" % n)[0], "[%d]" % n, "printed number")
""", ("src/jsonPrimitive.cpp", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    return std::to_string(value);", "template<> std::string JSonPrimitive<long long>::toString() const\n{\n    char digits[20];\n\n    snprintf(digits, sizeof(digits), \"%lld\", value);\n    return digits;"))

S("c16-inline", "C16", "a collapsed entry whose key and brackets need two rows, with less than five characters on the second one", "the next item is written over its second row",
  """
f = file("a.json", '{"%s":[1],"next":2}' % ("x" * 30))
s = tui(40, 10, ["down", "left", "q"], "--keep-order", f)[2]
expect([r.strip() for r in s.rows[1:6]], ["{", "x" * 30 + ": [ ..", ". ]", "next: 2", "}"], "rows")
""", ("src/curseSimpleOutput.cpp", "    return writeKey(key, keylen, after, after.size(), cursor, flags);", "    return writeKey(key, keylen, after, after.size() > 3 ? 3 : after.size(), cursor, flags);"))

S("c08-space", "C08", "a malformed document given after --, in several arguments", "the column is too large by one",
  """
out, err = run("--", '[1,', '?]')
if "at line 1, col 5 " not in err:
    fail("another place is told:", err)
""", ("src/params.cpp", "            if (written)\n", "            if (!written)\n"))

S("c23-cost", "C23", "a list of 255 items (or 511...) facing a single value", "the list costs nothing to replace, in one direction: the distance depends on the order",
  """
src = file("m.cpp", '''
#include <sstream>
#include <iostream>
#include "streamConsumer.hh"
#include "jsonArray.hh"
#include "levenshteinMatrice.hpp"
int main() {
    for (int n : {3, 100, 254, 255, 256, 300, 511}) {
        std::string l = "[[0";
        for (int i = 1; i < n; i++) l += ",0";
        std::stringstream x(l + "],1]"), y("[5,1]");
        StreamConsumer a(x), b(y);
        LevenshteinMatrice_base::Builder m;
        size_t p = m.build(a.read()->getRoot(), b.read()->getRoot())->result(), q = m.build(b.getRoot(), a.getRoot())->result();
        std::cout << (p == q);
    }
    return 0; }
''')
exe = compile_with(src)
expect(subprocess.run([exe], stdout=subprocess.PIPE).stdout, b"1111111", "same distance in both directions")
""", ("src/levenshtein.cpp", "        result->_result = ((JSonContainer*)a)->size() +1;", "        result->_result = (unsigned char) (((JSonContainer*)a)->size() +1);"))

S("c05-hexg", "C05", "an escape with a letter beyond f", "the escape is accepted, as if it were a digit",
  """
for c in "gGhzZ":
    out, err = run(stdin='["a\\\\u00%s1"]' % c)
    if out or not err:
        fail("an escape with %r is accepted: %r" % (c, out))
""", ("src/unicode.cpp", "    if (c >= 'a' && c <= 'f')\n        return c - 'a' + 10;", "    if (c >= 'a' && c <= 'g')\n        return c - 'a' + 10;"))

S("c30-redirect", "C30", "a comparison with its standard output sent to a file, started from a terminal", "the screen is written to the file: nothing is shown",
  """
f, g = file("a.json", '["hello",2]'), file("b.json", '["hello",3]')
s = terminal(["hello", b"q"], "--diff", f, g, out=os.path.join(TMP, "out"))
expect((s.status, s.restored), (0, True), "exit status, modes given back")
""", ("src/curseOutput.cpp", "    if (!isatty(fileno(stdin)) || !isatty(fileno(stdout)))", "    if (!isatty(fileno(stdin)))"))

S("c28-bottom", "C28", "the prompt of a search or a message, in a comparison", "it is drawn in no colour",
  """
f, g = file("a.json", '["hello",2]'), file("b.json", '["hello",3]')
s = tui(40, 10, ["/", "z", "enter", "q"], "--diff", f, g)
expect([sorted(set(x.attrs[-1])) for x in s[1:4]], [[51], [51], [52]], "colours of the prompt and of the message")
""", ("src/curseSplitOutput.cpp", "    const t_Cursor screenSize = getScreenSizeUnsafe();\n    const size_t bufsize = buffer.size();\n\n    if (params.colorEnabled())\n        wattron(bottomLine, COLOR_PAIR(color));", "    const t_Cursor screenSize = getScreenSizeUnsafe();\n    const size_t bufsize = buffer.size();\n\n"))

S("c20-ctrlw", "C20", "^W then q, as in other programs", "it ends the viewer, though it is no command",
  """
f, g = file("a.json", '[1]'), file("b.json", '[1]')
for args in ([f], ["--diff", f, g]):
    expect(len(tui(60, 10, ["^W", "q", "down"], *args)), 4, "number of screens")
""", ("src/curseOutput.cpp", "    if (key == \"Q\")\n", "    if (key == \"Q\" || key == \"^W-Q\")\n"))

S("c20-prompt", "C20", "a signal while a search is typed", "the prompt stays",
  """
f = file("a.json", '[1]')
expect(len(tui(60, 10, ["/", "z", "sigterm", "y", "x", "w"], f)), 3, "number of screens")
""", ("src/curseOutput.cpp", "            abort = true;", "            abort = (c == 27);"))

S("c15-bkempty", "C15", "Backspace typed in an empty search prompt, and then a search", "the prompt is left: what is typed next is taken as commands",
  """
f = file("a.json", '["foo","bar","foo"]')
s = tui(30, 12, ["/", "x", "backspace", "backspace", "b", "a", "r", "enter"], f)
expect([i for i, a in enumerate(s[-1].attrs) if any(x >> 7 for x in a)], [2], "rows of the selection: %s" % s[-1])
""", ("src/curseOutput.cpp", "            if (!buffer.empty())\n                buffer.pop_back();", "            if (buffer.empty())\n                abort = true;\n            else\n                buffer.pop_back();"))

S("c29-restore", "C29", "^W from an item without counterpart, a second ^W, then a move", "the move starts from the item left",
  """
f, g = file("a.json", '["alpha","beta","gamma","delta"]'), file("b.json", '["alpha","beta","gamma"]')
s = tui(80, 20, ["down"] * 4 + ["^W", "w", "^W", "w", "up"], "--diff", f, g)[-1]
if not any("beta" in r[:40] for r, t in zip(s.rows, s.attrs) if any(x >> 7 for x in t[2:40])):
    fail("selected\\n%s\\n%s" % (s, s.high()))
""", ("src/curseSplitOutput.cpp", "                if (it.selection)\n                    it.lastSelection = it.selection;\n", ""))

S("c29-scroll", "C29", "a comparison scrolled by more than 255 rows", "the selection goes off the screen",
  """
f = file("a.json", "[" + ",".join(map(str, range(400))) + "]")
s = tui(60, 12, ["right", "pgdn"] + ["pgdn"] * 300, "--diff", f, file("b.json", open(f).read()))[-1]
if not any("301" in r for r, t in zip(s.rows, s.attrs) if any(x >> 7 for x in t)):
    fail("selected\\n%s\\n%s" % (s, s.high()))
""", ("include/curseSplitOutput.hh", "unsigned int scrollTop", "unsigned char scrollTop"))

S("c11-full", "C11", "an output without room for all of what is printed", "the rest is lost without a message",
  """
import subprocess
f = file("a.json", "[1,2,3]")
with open("/dev/full", "wb") as out:
    p = subprocess.run(["./_build/bin/jsonstroll", f], stdout=out, stderr=subprocess.PIPE, timeout=60)
if p.returncode == 0 and not p.stderr:
    fail("nothing says that the output could not be written")
""", ("src/main.cpp", "        SimpleOutput::display(std::cout, stream->getRoot(), params);", "        std::stringstream text;\n        SimpleOutput::display(text, stream->getRoot(), params);\n        if (write(STDOUT_FILENO, text.str().data(), text.str().size()) <= 0)\n            break;"))
