"""V24: files hold what was asked to be stored, under the name given, and the audit log has a line for every certificate."""
import re

from ..build import Program
from ..engine import U, iv, st_isnull
from ..models import LOGGERS, rec
from ..report import Report, Anchor
from .. import gates as G
from .concurrency_checks import Graph, line_of, name
from .flow_checks import Formats
from .identity_checks import need, okint, maybe_ok, good
from .server_checks import Fn, args, file_of, unver

OPENS = {'fopen': (0, 1), 'fopen64': (0, 1), 'BIO_new_file': (0, 1), 'freopen': (0, 1)}
# what writes an object to a stream: stream argument, object argument
STORES = {'certbuf_to_file': {'PEM_write_X509': (0, 1), 'PEM_write_bio_X509': (0, 1)},
          'keybuf_to_file': {'PEM_write_PrivateKey': (0, 1), 'PEM_write_bio_PrivateKey': (0, 1), 'PEM_write_PKCS8PrivateKey': (0, 1),
                             'PEM_write_bio_PKCS8PrivateKey': (0, 1)},
          'cmsbuf_to_file': {'SMIME_write_CMS': (0, 1)}}
FLUSH = {'fclose': lambda st, r: zero(st, r), 'fflush': lambda st, r: zero(st, r), 'BIO_ctrl': lambda st, r: pos(st, r), 'BIO_free': lambda st, r: pos(st, r),
         'BIO_flush': lambda st, r: pos(st, r), 'fsync': lambda st, r: zero(st, r)}
LOADS = {'file_to_x509buf': ('PEM_read_X509', 'PEM_read_bio_X509'), 'file_to_keybuf': ('PEM_read_PrivateKey', 'PEM_read_bio_PrivateKey')}
MAKESFILE = {'open', 'open64', 'openat', 'creat', 'mkstemp', 'mkostemp', 'tmpfile', 'rename', 'renameat', 'unlink', 'unlinkat', 'remove', 'rmdir', 'mkdir', 'truncate',
             'ftruncate', 'link', 'symlink', 'chmod', 'fchmod', 'chown', 'fchown', 'fdopen', 'dup2', 'mknod', 'mkfifo', 'std::remove', 'std::rename'}
CXXFILE = re.compile(r'std::(__cxx11::)?basic_(o|f)stream<.*>::(basic_(o|f)fstream|open)|std::basic_(ofstream|fstream|filebuf)<[^(]*>::(basic_|open)|std::filesystem::')
LOSES = {'rename', 'renameat', 'unlink', 'unlinkat', 'remove', 'rmdir', 'truncate', 'ftruncate', 'creat', 'std::remove', 'std::rename'}
GROWS = {'save_to_log', 'log_open_file'}
SANCTIONED = set(STORES) | {'save_to_log', 'log_open_file'}


def zero(st, r):
    return r == 0 or isinstance(r, tuple) and r is not U and r[0] == 's' and iv(st, r) == (0, 0)


def pos(st, r):
    return isinstance(r, int) and r > 0 or isinstance(r, tuple) and r is not U and r[0] == 's' and (iv(st, r)[0] > 0 or iv(st, ('tr', 32, r))[0] > 0)


def v24(tier):
    rep = Report('V24', 'The functions that store or load certificates, keys and signed requests and the audit log are interpreted on every path, with every call that '
                 'can fail failing. Success means that the object decoded from the given bytes was written to a file opened for replacing under the given name and that '
                 'the data reached it (the result of closing or flushing was looked at); an existing file is only opened once the data is ready. What is loaded comes '
                 'from the file named. Every certificate the registrar issues and can parse is entered in the audit log, in one line of the stated form. '
                 'On the call graph no other function creates, changes or removes files.')
    P = Program()
    for fn in STORES:
        rep.part(store, P, rep, fn)
    for fn in LOADS:
        rep.part(load, P, rep, fn)
    rep.part(exported, P, rep)
    rep.part(audit_line, P, rep)
    rep.part(audit_names, P, rep)
    rep.part(audit_called, P, rep)
    rep.part(audit_path, P, rep)
    rep.part(log_file, P, rep)
    rep.part(others, P, rep)
    rep.assumptions = ['OpenSSL writes and reads PEM and S/MIME as documented', 'the path of the audit log is fixed at build time']
    return rep


def opened(e):
    return e[0] in OPENS and isinstance(e[3], tuple) and e[3][0] == 'p'


def mode(e):
    m = e[4]['c'][OPENS[e[0]][1]]
    return m[1].decode('latin1') if m and m[0] == 'lit' else None


def store(P, rep, fn):
    f = need(P, fn)
    k = Fn(P, rep, f, {'*'})
    src, nm = 'P:' + k.p[0], ('cont', 'P:' + k.p[1], 0)
    writes = STORES[fn]
    seen = 0
    for st, v, inst in k.ends:
        evs = [e for e in G.events(st) if '#' not in e[0] and e[0] not in LOGGERS]
        opens = [e for e in evs if opened(e) and mode(e) is not None and re.search('[wa+]', mode(e))]
        for e in opens:
            h = e[3]
            for x in evs[evs.index(e) + 1:]:
                if (x[0] in ('crypto_cert2context', 'crypto_key2context', 'crypto_eckey2context', 'crypto_rsakey2context') or x[0].startswith('d2i_')):
                    k.bad('opened-early', 'the file is opened, which empties it, before the data to be stored has been decoded', st, inst)
        if not maybe_ok(st, v):
            continue
        seen += 1
        rep.count('successful paths judged')
        done = [e for e in evs if e[0] in writes and good(st, e)]
        if not done:
            k.bad('not-written', 'success is reported although nothing was written', st, inst)
            continue
        e = done[-1]
        so, oo = writes[e[0]]
        ob = repr(e[4]['c'][oo])
        if src + '.' not in ob:
            k.bad('wrong-data', 'what is written is not what was given', st, inst)
        op = [x for x in evs if opened(x) and x[3] == e[1][so]]
        if not op:
            k.bad('wrong-file', 'the data is not written to a file opened here', st, inst)
            continue
        if unver(op[-1][4]['c'][OPENS[op[-1][0]][0]]) != nm:
            k.bad('wrong-file', 'the data is not written to the file named', st, inst)
        if mode(op[-1]) is not None and not mode(op[-1]).startswith('w'):
            k.bad('wrong-mode', 'the file is not replaced', st, inst)
        after = evs[evs.index(e) + 1:]
        fl = [x for x in after if x[0] in FLUSH and (x[1] and x[1][0] == e[1][so]) and (x[0] != 'BIO_ctrl' or x[1][1] == 11)]
        if not any(FLUSH[x[0]](st, x[3]) for x in fl):
            k.bad('not-flushed', 'success is reported although it is not known whether the data reached the file', st, inst)
    if not seen:
        k.bad('never', 'nothing is ever stored successfully')


def load(P, rep, fn):
    f = need(P, fn)
    k = Fn(P, rep, f, {'*'})
    nm = ('cont', 'P:' + k.p[0], 0)
    seen = 0
    for st, v, inst in k.ends:
        evs = [e for e in G.events(st) if '#' not in e[0] and e[0] not in LOGGERS]
        for e in evs:
            if opened(e) and mode(e) is not None and not mode(e).startswith('r') or opened(e) and mode(e) and '+' in mode(e):
                k.bad('wrong-mode', 'a file that is to be read is opened for writing', st, inst)
        if not (isinstance(v, tuple) and v[0] == 'p'):
            continue
        seen += 1
        rep.count('successful paths judged')
        rd = [e for e in evs if e[0] in LOADS[fn] and isinstance(e[3], tuple)]
        op = [e for e in evs if opened(e) and unver(e[4]['c'][OPENS[e[0]][0]]) == nm]
        a = G.arr(k.E, st, v)
        if not rd or not op or rd[-1][1][0] not in [e[3] for e in op]:
            k.bad('wrong-file', 'what is handed out was not read from the file named', st, inst)
        elif a is None or rd[-1][0] not in repr(a[0]):
            k.bad('wrong-data', 'what is handed out is not what was read', st, inst)
    if not seen:
        k.bad('never', 'nothing is ever loaded successfully')


def exported(P, rep):
    """an exported request is the one made and signed for this pledge, and success is only reported once it is out"""
    for fn, out in (('voucher_pledge_request_to_smimefile', 'cmsbuf_to_file'), ('voucher_pledge_request_to_base64', 'serialize_array2base64str')):
        f = need(P, fn)
        k = Fn(P, rep, f, {'*'})
        seen = 0
        for st, v, inst in k.ends:
            if fn.endswith('file') and not maybe_ok(st, v) or fn.endswith('64') and not (isinstance(v, tuple) and v[0] == 'p'):
                continue
            seen += 1
            rep.count('successful exports judged')
            evs = G.events(st)
            made = [e for e in evs if e[0] == 'sign_pledge_voucher_request' and isinstance(e[3], tuple)]
            done = [e for e in evs if e[0] == out and okint(st, e[3])]
            if not made or not done:
                k.bad('not-written', 'success is reported although no request was signed and exported', st, inst)
                continue
            if unver(made[-1][4]['c'][3]) != ('cont', 'P:' + k.p[1], 0):
                k.bad('wrong-data', 'the exported request is not made for the registrar certificate given', st, inst)
            e = done[-1]
            if fn.endswith('file'):
                if e[1][0] != made[-1][3]:
                    k.bad('wrong-data', 'what is exported is not the signed request', st, inst)
                if unver(e[4]['c'][1]) != ('cont', 'P:' + k.p[2], 0):
                    k.bad('wrong-file', 'the request is not written to the file named', st, inst)
            else:
                c = e[4]['c'][0]
                if not (isinstance(c, tuple) and c[0] == 'sign_pledge_voucher_request') or e[1][1] != k.E.lens.get(e[1][0][1]):
                    k.bad('wrong-data', 'what is exported is not the whole signed request', st, inst)
                if (k.E.content(st, v) or ('',))[0] != out and 'out2' not in str(v[1]):
                    k.bad('wrong-data', 'what is handed out is not the text of the signed request', st, inst)
        if not seen:
            k.bad('never', 'a request is never exported')


def with_serials(E, st, src, vals):
    """and the serial number in every description of a certificate filled so far"""
    out = args(E, st, src, vals)
    if src in ('fprintf', 'vfprintf'):
        fo = E.prog.fields('crypto_cert_meta') or {}
        out['sn'] = {}
        for e in G.events(st):
            if e[0] == 'crypto_getcert_meta' and isinstance(e[1][1], tuple) and E.obj(st, e[1][1][1]) is not None:
                out['sn'][e[1][1]] = G.peek(E, st, E.obj(st, e[1][1][1]), e[1][1][2] + fo['serial_number'], ('i', 64), 8)
    return out


def known_text(c):
    return isinstance(c, tuple) and c[0] in ('lit', 'cont', 'pre')


def audit_line(P, rep):
    f = need(P, 'save_to_log')
    k = Fn(P, rep, f, {'*'}, snap=with_serials, unroll=1)
    ic, lc, lp = ['P:' + n for n in k.p[:3]]
    rep.need(len(k.p) == 3, 'the audit log takes other arguments')
    seen = 0
    for st, v, inst in k.ends:
        evs = [e for e in G.events(st) if '#' not in e[0] and e[0] not in LOGGERS]
        op = [e for e in evs if opened(e)]
        metas = [e for e in evs if e[0] == 'crypto_getcert_meta' and okint(st, e[3])]
        for e in op:
            if unver(e[4]['c'][0]) != ('cont', lp, 0):
                k.bad('wrong-file', 'the audit log is not the file named', st, inst)
            if mode(e) is not None and not mode(e).startswith('a'):
                k.bad('wrong-mode', 'opening the audit log loses its earlier lines', st, inst)
        tried = [e for e in evs if e[0] in OPENS]
        if not tried and not st.fails:
            k.bad('not-logged', 'no line is written although nothing failed', st, inst)
        if not op:
            continue
        seen += 1
        rep.count('audit log paths judged')
        w = [e for e in evs if e[0] in ('fprintf', 'fputs', 'fwrite', 'BIO_printf', 'vfprintf') and e[1] and op[-1][3] in e[1]]
        if not w:
            k.bad('not-logged', 'the audit log is opened but no line is written', st, inst)
            continue
        if len(w) > 1 or w[0][0] != 'fprintf':
            rep.notes.append('the audit log line is put together in another way: its content is not judged')
            continue
        c = w[0][4]['c']
        if c[1][0] != 'lit' or not c[1][1].endswith(b'\n'):
            k.bad('line', 'the entry of the audit log is not a line', st, inst)
        vals = c[2:]
        if vals and vals[0][0] == 'num':
            k.bad('line', 'the entry of the audit log does not name the time', st, inst)
        if len(vals) != 5:
            k.bad('line', 'the entry of the audit log does not name time and both certificates', st, inst)
            continue
        for what, cert, (num, txt) in (('pledge', ic, (1, 2)), ('issued', lc, (3, 4))):
            m = [e for e in metas if unver(e[4]['c'][0]) == ('cont', cert, 0)]
            if not m:
                k.bad('line', 'the facts of the %s certificate were not read' % what, st, inst)
                continue
            mo = m[-1][1][1]
            if w[0][1][num + 2] != w[0][4]['sn'].get(mo):
                k.bad('line', 'the entry of the audit log does not hold the serial number of the %s certificate in its place' % what, st, inst)
            t = repr(vals[txt])
            sr = [e for e in evs if e[0] == 'crypto_getcert_serial' and e[1][0] == mo]
            if vals[txt] == ('lit', b'NULL') and sr and (sr[-1][3] == 0 or isinstance(sr[-1][3], tuple) and st_isnull(st, sr[-1][3]) == 1):
                continue
            a = w[0][1][txt + 2]
            if sr and isinstance(a, tuple) and str(a[1]).startswith('STR:'):
                # a copy in a string, perhaps edited: it has to be made from this name and nothing else
                other = [e for e in evs if e[0] == 'crypto_getcert_serial' and e[1][0] != mo]
                if repr(vals[txt]) in [repr(k.E.content(st, e[3])) for e in sr] or not any(
                        isinstance(e[3], tuple) and vals[txt] == k.E.content(st, e[3]) for e in other) and not known_text(vals[txt]):
                    continue
            if not sr or sr[-1][3] == 0 or a != sr[-1][3]:
                k.bad('line', 'the entry of the audit log does not hold the subject serial number of the %s certificate in its place' % what, st, inst)
    if not seen:
        k.bad('never', 'a line is never written')


SPLITS = {10: 'a line break', 34: 'a quote'}


def audit_names(P, rep):
    """the audit log with every name of a certificate holding a character that ends a line or a field"""
    f = need(P, 'save_to_log')

    def named(ch):
        def serial(E, st, inst, av, src):
            p = E.new_obj(st, 'NAME:' + E.site(st, inst), 'lazy', size=3)
            for i, b in enumerate((65, ch, 0)):
                E.poke(st, E.obj(st, p[1]), i, b, 1)
            st.nn[p[1]] = True
            return [(st, p)]
        return serial

    def shown(E, st, src, vals):
        out = args(E, st, src, vals)
        if src in WRITES:
            out['b'] = []
            for v in vals:
                if not (isinstance(v, tuple) and v[0] == 'p' and isinstance(v[2], int)):
                    continue
                o = E.obj(st, v[1])
                if o is not None and v[1].startswith('NAME:'):
                    out['b'].append([G.peek(E, st, o, v[2] + i, ('i', 8), 1) for i in range(2)])
                else:
                    c = E.content(st, v)
                    if isinstance(c, tuple) and c[0] == 'lit' and c[1][:1] == b'A' and len(c[1]) == 2:
                        out['b'].append(list(c[1]))
        return out
    for ch, what in SPLITS.items():
        k = Fn(P, rep, f, {'*'}, snap=shown, models={'crypto_getcert_serial': named(ch)}, unroll=6)
        for st, v, inst in k.ends:
            for e in G.events(st):
                if e[0] in WRITES and e[3] is not None:
                    rep.count('names judged', len(e[4]['b']))
                    if any(ch in b for b in e[4]['b']):
                        k.bad('name-splits', '%s in a name of a certificate is written to the audit log as it is' % what, st, inst)


WRITES = ('fprintf', 'fputs', 'fwrite', 'BIO_printf', 'vfprintf')


def audit_called(P, rep):
    f = need(P, 'registrar_est_simpleenroll')
    # the line itself is judged by audit_line

    def line(E, st, inst, av, src):
        rec(E, st, src, av, inst, None)
        return [(st, E.unk(st, inst, inst.a[0]) if inst.a[0][0] != 'void' else None)]
    k = Fn(P, rep, f, {'crypto_sign_cert', 'crypto_cert2context', 'save_to_log', 'fopen', 'crypto_getcert_meta'}, models={'save_to_log': line})
    rep.need(len(k.p) == 6, 'the handler of enrolment takes other arguments')
    off = (P.fields('RegistrarContext') or {}).get('log_path')
    seen = 0
    for st, v, inst in k.ends:
        if not (isinstance(v, int) and 200 <= v < 400):
            continue
        seen += 1
        rep.count('successful enrolments judged')
        evs = G.events(st)
        sign = [e for e in evs if e[0] == 'crypto_sign_cert' and okint(st, e[3])]
        dec = [e for e in evs if e[0] == 'crypto_cert2context' and isinstance(e[3], tuple)]
        if not dec and any(e[0] == 'crypto_cert2context' for e in evs):
            continue
        log = [e for e in evs if e[0] == 'save_to_log']
        opens = [e for e in evs if e[0] == 'fopen']
        if not log and not opens:
            if not any('keyvalue' in repr(x) or 'getcert_meta' in repr(x) for x in st.fails):
                k.bad('not-logged', 'a certificate is issued without an entry in the audit log', st, inst)
            continue
        for e in log:
            c = [unver(x) for x in e[4]['c']]
            if 'crypto_cert2context' not in repr(c[1]) or not sign or "'crypto_sign_cert', 5" not in repr(c[1]):
                k.bad('not-logged', 'the audit log entry is not about the certificate that was issued', st, inst)
            if c[0] != ('cont', 'P:' + k.p[2], 0):
                k.bad('not-logged', 'the audit log entry is not about the pledge that enrols', st, inst)
            if e[1][2] != ('p', 'P:' + k.p[5], off):
                k.bad('wrong-file', 'the audit log entry is not made in the audit log of this server', st, inst)
    if not seen:
        k.bad('never', 'a certificate is never issued')


def audit_path(P, rep):
    f = need(P, 'registrar_start')
    k = Fn(P, rep, f, {'*', 'https_start', 'sys_strlcpy', 'sys_strlcat'})
    off = (P.fields('RegistrarContext') or {}).get('log_path')
    rep.need(off is not None, 'the context of the registrar has no log path')
    seen = 0
    for st, v, inst in k.ends:
        evs = G.events(st)
        hs = [e for e in evs if e[0] == 'https_start']
        if not hs:
            continue
        seen += 1
        c = hs[-1][1][2]
        if not (isinstance(c, tuple) and c[0] == 'p'):
            continue
        w = [e for e in evs[:evs.index(hs[-1])] if e[1] and e[1][0] == ('p', c[1], off)]
        if not w:
            k.bad('no-audit-log', 'the registrar is started without the path of its audit log', st, inst)
        elif ('lit', b'') in w[-1][4]['c']:
            k.bad('no-audit-log', 'the registrar is started with an empty path of its audit log', st, inst)
        elif w[-1][0] == 'sys_strlcpy' and w[-1][4]['c'][1][0] == 'lit' and isinstance(w[-1][1][2], int) and w[-1][1][2] <= len(w[-1][4]['c'][1][1]):
            k.bad('no-audit-log', 'the path of the audit log is cut short', st, inst)
    rep.need(seen > 0, 'the registrar is started in another way')


def log_file(P, rep):
    f = need(P, 'log_open_file')
    k = Fn(P, rep, f, {'*'})
    nm = ('cont', 'P:' + k.p[0], 0)
    seen = 0
    for st, v, inst in k.ends:
        for e in G.events(st):
            if e[0] in OPENS:
                seen += 1
                if unver(e[4]['c'][0]) != nm:
                    k.bad('wrong-file', 'the log is not the file named', st, inst)
                if mode(e) is not None and not mode(e).startswith('a'):
                    k.bad('wrong-mode', 'opening the log loses its earlier entries', st, inst)
    rep.need(seen > 0, 'the log file is opened in another way')


def others(P, rep):
    """who creates, changes or removes files"""
    g = Graph(P)
    fm = Formats(g, rep)
    bad = {}
    for f in g.fns:
        for c, i in g.calls[f]:
            d = P.dem(c) if c.startswith('_Z') else c
            s = d.split('(')[0]
            rep.count('calls looked at for files')
            if s in OPENS:
                m = [o for o in fm.origins(f, i.a[2][OPENS[s][1]][1])]
                if any(o[0] == 'text' and re.search('[wa+]', o[1]) for o in m):
                    rep.count('files opened for writing')
                    bad.setdefault((f, s in LOSES), (s, i))
            elif s in MAKESFILE or CXXFILE.search(d):
                bad.setdefault((f, s in LOSES), (s, i))
    rep.need(rep.counts.get('files opened for writing', 0) >= 3, 'the functions that write files were not found')
    # a function may do so if it is one of those meant to, or only works for those
    callers = {}
    for f in g.fns:
        for n in g.refs[f]:
            h = g.find(f, n)
            if h is not None:
                callers.setdefault(h, set()).add(f)
    for (f, loses), (s, i) in bad.items():
        todo, seen, out = [f], set(), None
        while todo:
            x = todo.pop()
            if x in seen or name(x) in SANCTIONED - (GROWS if loses else set()):
                continue
            seen.add(x)
            if not callers.get(x):
                out = x
                break
            todo.extend(callers[x])
        if out is not None:
            rep.viol('other-file', file_of(f), name(f), '%s is used where no file is meant to be written' % s, line_of(f, i))
