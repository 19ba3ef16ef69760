"""Generate harness/h/wide.go."""
def st(name, k, tag):
    return "type %s struct {\n" % name + "".join("\tF%d int%s\n" % (i, tag(i)) for i in range(k)) + "}\n\n"
s = "package h\n\n// Structs with many fields (generated by tools/mkwide.py).\n\n"
s += st("Wide300", 300, lambda i: "") + st("Omit130", 130, lambda i: ' `php:"f%d,omitempty"`' % i)
s += st("Mixed70", 70, lambda i: ["", ' `php:",omitempty"`', ' `php:"-"`', ' `php:",string"`', ' `php:"g%d,string,omitempty"`' % i][i % 5])
open("/verif/harness/h/wide.go", "w").write(s)
