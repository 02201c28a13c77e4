"""C19: the variables of the whole process, and that nothing but the program's start ever writes them.

The contracts of all other modules are run for C19 as well; what is counted there is that every write an operation does is
to its arguments, its own objects or per-thread memory.  Here the code that no contract executes (miniz, startup) is covered:
every use of a variable that is neither constant nor per thread is a read."""
from spec.common import *

READS = re.compile(r'^std::(map|array|vector|set|unordered_map)<.*>::(find|end|begin|cend|cbegin|count|at|size|empty|data|contains)\(.*\)( const)?$'
                   r'|^std::(array|vector)<.*>::operator\[\]\(.*\)( const)?$'
                   r'|^std::__cxx11::basic_string<.*>::\w+\(.*\) const$')
NAME = r'@("[^"]+"|[-\w$.]+)'


def defined(line):
    m = re.match(r'\s*(%[-\w$.]+) = (.*)$', line)
    return (m.group(1), m.group(2)) if m else (None, line.strip())


def slot_read(c, body, slot, seen):
    pat = re.compile(re.escape(slot) + r'(?![-\w$.])')
    for line in body:
        if not pat.search(line):
            continue
        dst, op = defined(line)
        if dst == slot:
            if re.match(r'alloca ptr\b', op):
                continue
            return line.strip()
        if re.match(r'load ptr, ptr %s(,|$)' % re.escape(slot), op):
            if dst not in seen:
                bad = only_read(c, body, dst, seen | {dst})
                if bad:
                    return bad
            continue
        if re.match(r'store ptr [^ ,]+, ptr %s(,|$)' % re.escape(slot), op) and 'ptr %s, ptr' % slot not in op:
            continue
        if 'llvm.dbg' in op or 'llvm.lifetime' in op:
            continue
        return line.strip()
    return None


def only_read(c, body, what, seen):
    """every use of the pointer `what` in this function is a read of what it points to; gives the first other use"""
    pat = re.compile(re.escape(what) + r'(?![-\w$.])')
    for line in body:
        if not pat.search(line):
            continue
        dst, op = defined(line)
        if dst == what:
            continue
        if re.match(r'load ', op):
            continue
        if re.match(r'(getelementptr|bitcast|select|freeze) ?', op) or re.match(r'phi ptr', op):
            if dst not in seen:
                bad = only_read(c, body, dst, seen | {dst})
                if bad:
                    return bad
            continue
        if re.match(r'icmp ', op):
            continue
        m = re.search(r'\b(?:call|invoke)\b[^@]*' + NAME + r'\(', op)
        if m:
            d = c.env.m.demangle(m.group(1).strip('"'))
            if d.startswith('llvm.dbg'):
                continue
            if READS.match(d):
                # what it gives may point into the variable
                if dst and re.search(r'\b(?:call|invoke)\b[^@]*\bptr @', op) and dst not in seen and not d.endswith(' const') \
                        and re.match(r'std::(array|vector)<.*>::(data|at|operator\[\])\(', d):
                    bad = only_read(c, body, dst, seen | {dst})
                    if bad:
                        return bad
                continue
            # copied into a string of its own
            if re.match(r'std::__cxx11::basic_string<.*>::(basic_string|operator=|append|compare)\(.*basic_string<.*> const&\)( const)?$', d) \
                    and len(pat.findall(op)) == 1 and not re.search(re.escape(m.group(1)) + r'\(ptr [^,]*' + re.escape(what) + r'(?![-\w$.])', op):
                continue
        m = re.match(r'store ptr (%s), ptr (%%[-\w$.]+),' % re.escape(what), op)
        if m:
            # kept in a variable of the function: what is read back from there points to it
            slot = m.group(2)
            bad = slot_read(c, body, slot, seen)
            if bad:
                return bad
            continue
        if re.match(r'(br|switch|ret void)', op):
            continue
        if op.startswith('ret ptr'):
            bad = callers_read(c, body, seen)
            if bad:
                return bad
            continue
        return line.strip()
    return None


def callers_read(c, body, seen):
    """the function gives a reference to the variable: every caller only reads through it"""
    fns = [n for n, f in c.env.m.functions.items() if f.lines is body]
    for fn in fns:
        q = '@' + fn if re.match(r'^[-\w$.]+$', fn) else '@"%s"' % fn
        pat = re.compile(r'\b(?:call|invoke)\b[^@]*' + re.escape(q) + r'\(')
        for n, f in c.env.m.functions.items():
            for line in f.lines:
                if pat.search(line):
                    dst, op = defined(line)
                    key = (n, dst)
                    if dst and key not in seen:
                        bad = only_read(c, f.lines, dst, frozenset([dst, key]))
                        if bad:
                            return bad
    return None


def shared(c):
    c.start()
    vars_ = []
    for n in sorted(c.env.m.globals):
        g = c.env.m.global_def(n)
        s = c.env.m.globals[n]
        if g is None or g['const'] or g['tls'] or g['external'] or g['alias'] or n.startswith('llvm.') or n == '__dso_handle':
            continue
        vars_.append(n)
    c.posts.append(Obl('the variables of the process', True, None, kind='frame'))
    for n in vars_:
        q = '@' + n if re.match(r'^[-\w$.]+$', n) else '@"%s"' % n
        for fn, f in c.env.m.functions.items():
            if 'section ".text.startup"' in f.header or not any(q in l for l in f.lines):
                continue
            c.ex.stores += 1
            bad = only_read(c, f.lines, q, frozenset([q]))
            if bad:
                raise Imprecise('use of %s in %s: %s' % (n, c.env.m.demangle(fn), bad[:200]))


task('C19', 'variables of the process are only read after its start', [])(shared)


# functions outside the library whose contract is that they change state of the whole process
CHANGES = re.compile(r'^(std::locale::global\(|std::ios_base::sync_with_stdio\(|std::set_(terminate|new_handler|unexpected)\(|'
                     r'(setlocale|srand|rand|random|srandom|srand48|drand48|lrand48|mrand48|strtok|setenv|unsetenv|putenv|clearenv|chdir|fchdir|'
                     r'umask|signal|sigaction|mallopt|asctime|ctime|tmpnam)$)')


def outside(c):
    c.start()
    c.ex.stores += 1
    c.posts.append(Obl('nothing is called that changes state of the process', True, None, kind='frame'))
    for fn, f in c.env.m.functions.items():
        for line in f.lines:
            m = re.search(r'\b(?:call|invoke)\b[^@]*' + NAME + r'\(', line)
            if m:
                d = c.env.m.demangle(m.group(1).strip('"'))
                if CHANGES.match(d):
                    c.ex.global_writes.append(('by ' + d, 'called in ' + c.env.m.demangle(fn)))


task('C19', 'nothing is called that changes state of the process', [])(outside)
