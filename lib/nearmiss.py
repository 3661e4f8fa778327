"""Edits which lead to the border of the grammar, on either side of it: every rule of it is stretched and broken.  What the result is worth is for reflang to say."""
import re

PIECE = re.compile(r'/\*.*?\*/|//[^\r\n]*|\r\n|[ \t\r\n]|"[^"\r\n]*"|[A-Za-z_][A-Za-z0-9_]*|\d+|.', re.S)
ODD = '!#$%&\'*+,-./:;<=>?@[\\]^_`{|}~()"' + '\x00\x01\x0b\x0c\x1a\x1c\x7f\x85\xa0\xad\u2028\u200b\ufeff\u00e9\u0430\u0663\uff11' + '09aZxX'
SPACES = [' ', '\t', '\n', '\r', '\r\n', '\r\r', '\n\n']
NOSPACES = ['\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u200b', '\ufeff', '\x00', '\\\n', '\x08', '\x1a']
COMMENTS = ['/*x*/', '/**/', '/***/', '/** x */', '/**\n x */', '/**\r x */', '/**\r\n x */', '//x\n', '//x\r', '//x\r\n', '//\n', '///x\n', '/*//*/', '//*\n', '/*\n*/', '/* /* */',
            '/*"*/', '//"\n', '/**\n*/', '//\\\n', '/*é\u2028*/', '//\x0c\n', '/* *//* */', '//é\n']
NOCOMMENTS = ['/*', '/*/', '*/', '/* /* */ */', '/**\n', '/ *x*/', '/ /x\n', '#x\n', '--x\n', '/*x* /', '//x\x0b', '//x\x0c interface Zz {};', '//x\u2028', '/**\n x * /', '/', '%x\n']
TAILS = ['x', ';', '}', '};', '{', '\x00', ' 1', '/*', '/**\n', '//', '//x', '/**/', '\ninclude "a.idl"\n', '\x1a', 'const', 'interface', '"', '\n', '\r', '\ufeff', 'interface Zz {}', 'struct Zz { uint8 x; }',
         'const uint8 Zz = 1', '\ninterface Zz {};', '\ninterface Zz {};;', '\nconst uint8 Zz = 1;', '\nerror Zz;', '\nmethod Zz();', '\n#[optional]', '\nstruct Zz {};', '\nstruct Zz{uint8 x;};']

# (what is looked for, what it may become)
RULES = [
    (r'\};', ['} ;', '}\n;', '}/**/;', '}', '};;', ';}', '}}', '', '};};', '});', '},']),
    (r'\);', [') ;', ')\n;', ')/**/;', ')', ');;', '', '))', '){}', ')};', ') {};', ']);', ') const;', ':uint8);']),
    (r';', ['', ';;', ',', ':', ' ;', '\n;', '/**/;', '.', ';\\']),
    (r',', ['', ',,', ';', ' , ', ',\n', '/**/,', '&', ',)']),
    (r'\(', ['', '((', '[', ' (', '\n(', '/**/(', '(,', '(void', '( ', '(;']),
    (r'\{', ['', '{{', '(', ' {', '\n{', '/**/{', '{;', '{,', '{ }']),
    (r'=', ['', '==', ':=', ' = ', '\n=\n', ':', '/**/=/**/', '(', '= +', '= -', '= - ']),
    (r':', ['', '::', ' : ', ':\n', ',', ': :', 'extends', '<', ':/**/', ': public', '->']),
    (r'\binterface\b(?=\s+\w+\s*[{:])', ['Interface', 'INTERFACE', 'interface\t', 'interface\n', 'interface/**/', 'interfac', 'interfaces', 'interface interface', 'class', 'interface\r', '#[optional] interface',
                                            'interface\x0c', 'local interface', 'interface  ', 'interface{}', 'interface ,']),
    (r'\bstruct\b', ['Struct', 'STRUCT', 'struct\n', 'struct\t ', 'struct/**/', 'struct struct', 'union', 'typedef struct', '#[optional] struct', 'struct interface', 'struct interfaceX', 'struct\r\n']),
    (r'\bconst\b', ['Const', 'CONST', 'const\n', 'const\t', 'const/**/', 'const const', 'static const', '#define', '#[optional] const', 'const\r', 'final']),
    (r'\bmethod\b', ['Method', 'METHOD', 'method\n', 'method\t', 'method/**/', 'method method', 'method/**/ ', '#[optional]method', '#[optional] method', '#[optional]\nmethod', '#[optional]\tmethod',
                     '#[optional] #[optional] method', '#[optional]#[optional] method', '#[optional]/**/method', '#[optional] /**/ method', '#[ optional] method', '#[optional ] method', '# [optional] method',
                     '#[Optional] method', '#[optional] \n\t method', '#[] method', '#[optional;] method', '#[optional,optional] method', '[optional] method', '#optional method', '#![optional] method',
                     '@optional method', 'optional method', '#[optional]\n\n#[optional]\nmethod', '#[optional()] method', '#[opt] method', '#[optional]\x0cmethod', 'oneway method', 'method void', 'void', 'fn',
                     '/**\n d */ method', '#[optional]\n/**\n d */\nmethod', '/**\n d */\n#[optional]\nmethod', '#[optional] #[deprecated] method', '#[optional_] method', '#[optional]\r\nmethod']),
    (r'\berror\b', ['Error', 'ERROR', 'error\n', 'error\t', 'error/**/', 'error error', 'errors', '#[optional] error', 'error\r', 'exception', 'method error']),
    (r'(?<=error )(\w+)', ['\\1 = 3', '\\1, \\1b', '\\1()', '\\1[3]', '\\1:', 'uint8 \\1', '1\\1', '_\\1', '\\1 10', '(\\1)']),
    (r'\bin\b(?=\s)', ['', 'In', 'IN', 'in out', 'inout', 'out', 'in in', 'in\n', 'in/**/', 'in\t', 'in,', 'in:', '[in]', 'input', 'ref', 'in\r\n', 'in const', 'in mut']),
    (r'\bout\b(?=\s)', ['', 'Out', 'OUT', 'out in', 'inout', 'in', 'out out', 'out\n', 'out/**/', 'out\t', '*', 'out,', '[out]', 'output', '&']),
    (r'\b(in|out) +(?=\w)', ['\\1', '\\1\t\n ', '\\1/**/', '\\1//\n']),
    (r'\bu?int(8|16|32|64)\b', ['uint128', 'int24', 'int', 'uint', 'uint0', 'uint 8', 'u int8', 'Uint8', 'UINT8', 'uint08', 'uint8_t', 'int8', 'uint8', 'int16', 'uint64', 'unsigned int', 'long', 'char', 'byte',
                                'uint8/**/', 'uuint8', 'uint88', 'uint8x', 'sint8', 'uint_8', 'int8[]', 'uint16[4]', 'uint8[ 4 ]', 'uint8[]', 'uint8[][]', 'uint8[4][4]', 'uint8 []']),
    (r'\bfloat(32|64)\b', ['float', 'float16', 'float128', 'double', 'Float32', 'float 32', 'ufloat32', 'float_32', 'float032', 'float64', 'float32', 'float8']),
    (r'\bbuffer\b', ['Buffer', 'BUFFER', 'buffer[]', 'buffer[3]', 'buffers', 'buffer buffer', 'void*', 'string', 'buffer ', 'uint8[]', 'buffer[1]']),
    (r'\[(\d*)\]', ['[ \\1 ]', '[\\1', '\\1]', '[[\\1]]', '(\\1)', '<\\1>', '[\\1,]', '[\\1][\\1]', '[-1]', '[+1]', '[0x1]', '[1.0]', '[1 2]', '[x]', '[]', '[ ]', '[/**/\\1/**/]', '[\n\\1\n]', '[1]', '[01]',
                     '[2]', '[0]', '[00]', '[65535]', '[065535]', '[65536]', '[99999]', '[10000]', '[4294967296]', '[4294967297]', '[18446744073709551617]', '[340282366920938463463374607431768211457]', '[1u]',
                     '[1_0]', '[1e1]', '[.1]', "['1']", '[uint8]', '[\t\\1]', '[\\1\x0c]', '[1:2]', '[*]', '[?]']),
    (r'(\w+)(?=\s*[,)])', ['\\1[3]', '\\1[]', '\\1 = 1', '*\\1', '&\\1', '\\1 \\1b', '_\\1', '9\\1', '\\1?', '\\1:uint8', '', 'r#\\1', '\\1-x', '\\1.x', '$\\1', '"\\1"', '\\1$', '\\1 ', 'é\\1', '\\1é', '\\1_', '\\1__9']),
    (r'(\w+)(?=\s*;)', ['\\1[3]', '\\1[]', '\\1 = 1', '*\\1', '\\1, \\1b', '_\\1', '9\\1', '\\1 : 3', '', '"\\1"', '\\1 \\1', '$\\1', '\\1$', '\\1_', '\\1-\\1', 'a.\\1']),
    (r'(?<== )(-?[0-9a-fA-Fx.]+)', ['+\\1', '-\\1', '--\\1', '- \\1', '\\1.', '.\\1', '\\1.0', '\\1.5', '\\1e3', '\\1E0', '\\1u', '\\1L', '\\1f', '\\1_0', '0\\1', '00\\1', '0x\\1', '0X\\1', '0X1F', '0x1F', '0x1f', '0xaBcD',
                                    '0x', '0xg', '-0x1', '-0x0', '0x-1', '0x1.8', '0x1p3', '0b1', '0o7', '007', "'a'", '"1"', 'true', 'NULL', 'x', '(\\1)', '\\1 \\1', '1 + 1', '1,000', '\\1/**/', '/**/\\1', '~0', '!0', '0.0', '-0',
                                    '-0.0', '1.', '.5', '1..5', '1.5.5', '1.-5', '', 'inf', 'nan', '1/2', '1<<3', '\\1;', '0xFFFF', '-1', '\u0661', '0x\uff11', '1\x0c', '1\xa0']),
    (r'\binclude\b', ['Include', 'INCLUDE', 'include\n', 'include\t', 'include\r\n', 'include/**/', 'include /**/', 'include', '#include', 'import', 'include include', 'include  ', 'include(', 'include\x0c', '/**/include', 'include,']),
    (r'"([^"\n]*)\.idl"', ["'\\1.idl'", '<\\1.idl>', '"\\1"', '"\\1.IDL"', '"\\1.idl', '\\1.idl"', '"\\1.idl";', '"\\1.idl" ;', '"\\1.idl" as x', '"\\1.idlx"', '"\\1.idl.idl"', '" \\1.idl"', '"\\1.idl "', '""', '".idl"', '"\\1.id"',
                           '"\\1.idl""\\1.idl"', '"\\1.idl", "\\1.idl"', '"\n\\1.idl"', '"\\1_idl"', '"\\1.idl"\\\n', '""\\1.idl""']),
    (r'(interface\s+\w+)\s*(?::\s*\w+)?\s*\{', ['\\1 : {', '\\1 : Zz, Yy {', '\\1 : Zz : Yy {', '\\1() {', '\\1<T> {', '\\1 {{', '\\1;', '\\1 Zz {', '\\1 extends Zz {', '\\1 : uint8 {', '\\1 : interface {', '\\1{', '\\1\n\n{', '\\1:\n{', '\\1.x {']),
    (r'(:\s*\w+)(?=\s*\{)', ['\\1 : Zz', '\\1:Zz', '\\1, Zz', '\\1 Zz', '\\1 : Zz : Yy', '\\1 :', '\\1\n', ': :\\1', '\\1;', '\\1()', '\\1[2]', '\\1::Zz', '\\1 : 1', '\\1.Zz']),
    (r'(struct\s+\w+)\s*\{', ['\\1 : Zz {', '\\1 {};', '\\1 { ; ', '\\1;', '\\1() {', '\\1{', '\\1\n\n\t{', '\\1 { method m(); ', '\\1 { error E; ', '\\1 { const uint8 K = 1; ', '\\1 { struct T { uint8 x; }; ', '\\1 { in uint8 q; ',
                              '\\1 { uint8[] q; ', '\\1 { buffer q; ', '\\1 { interface q; ', '\\1 { interface[2] q; ', '\\1 { uint8 q, r; ', '\\1 { uint8 q[2]; ', '\\1 { uint8 q = 1; ', '\\1 { uint8; ', '\\1 { uint8:4 q; ', '\\1 { #[optional] uint8 q; ']),
    (r'(interface\s+\w+[^{;]*\{)', ['\\1 uint8 q; ', '\\1 struct T { uint8 x; }; ', '\\1 interface T {}; ', '\\1 include "a.idl" ', '\\1 ; ', '\\1 in uint8 q; ', '\\1 method(); ', '\\1 method m; ', '\\1 method m() ; ', '\\1 method m(uint8 x); ',
                                    '\\1 method mz(in uint8); ', '\\1 method mz(in x); ', '\\1 method mz(in uint8 x,); ', '\\1 method mz(,in uint8 x); ', '\\1 method mz(,); ', '\\1 method mz( ); ', '\\1 method mz(\n); ', '\\1 method mz(/**/); ',
                                    '\\1 method mz(in uint8 x in uint8 y); ', '\\1 method mz(in uint8 x;in uint8 y); ', '\\1 method mz(in in x); ', '\\1 method mz(in buffer x); ', '\\1 method mz(in interface x); ', '\\1 method mz(in interface[2] x); ',
                                    '\\1 method mz(in interface[] x); ', '\\1 method mz(inuint8 x); ', '\\1 method mz(outuint8 x); ', '\\1 method mz(in uint8x); ', '\\1 method mz(in uint8[]x); ', '\\1 method mz(in uint8 []x); ', '\\1 method mz(in buffer[] x); ',
                                    '\\1 method mz(in uint8[2] x); ', '\\1 method mz(in interface [ 2 ] x); ', '\\1 const uint8 Kz= 1; ', '\\1 const uint8 Kz=1; ', '\\1 const uint8 Kz=0xA; ', '\\1 constuint8 Kz=1; ', '\\1 const uint8Kz=1; ', '\\1 errorEz; ', '\\1 error Ez;;',
                                    '\\1 methodmz(); ', '\\1 method\nmz(); ', '\\1 method mz (); ', '\\1 method mz()\n; ', '\\1 const string Kz = "a"; ', '\\1 const buffer Kz = 1; ', '\\1 const uint8[2] Kz = 1; ', '\\1 const Kz = 1; ', '\\1 const uint8 Kz; ',
                                    '\\1 const uint8 = 1; ', '\\1 error; ', '\\1 error 1; ', '\\1 method mz() = 0; ', '\\1 method mz() throws Ez; ', '\\1 method interface(); ', '\\1 method mz(in uint8 interface); ', '\\1 method mz(in uint8 in); ',
                                    '\\1 method mz(in inx x); ', '\\1 error interface; ']),
]
RULES = [(re.compile(p), rs) for p, rs in RULES]
WEIGHTS = [len(rs) for _, rs in RULES]


def one(rng, text):
    r = rng.random()
    if r < .5:
        for _ in range(8):
            p, rs = rng.choices(RULES, WEIGHTS)[0]
            ms = list(p.finditer(text))
            if ms:
                m = rng.choice(ms)
                new = rng.choice(rs)
                if ('Zz' in new or 'Yy' in new) and rng.random() < .6:        # declared names instead of new ones
                    ids = re.findall(r'(?:interface|struct|const \w+)\s+([A-Za-z]\w*)', text) or ['Zz']
                    new = new.replace('Zz', rng.choice(ids)).replace('Yy', rng.choice(ids))
                return text[:m.start()] + m.expand(esc(new)) + text[m.end():]
        return text + rng.choice(TAILS)
    ts = PIECE.findall(text)
    if r < .6 or not ts:
        if rng.random() < .8:
            return text + rng.choice(TAILS)
        return rng.choice(TAILS + ['\ufeff', '\xef', ' ', '\n', '//x\n', '/**/']) + text
    k = rng.randrange(len(ts))
    if r < .72:                         # a character in, before, behind or instead of one of a word
        ws = [j for j, t in enumerate(ts) if t[0].isalnum()]
        if ws:
            k = rng.choice(ws)
        j = rng.randrange(len(ts[k]) + 1)
        ts[k] = ts[k][:j] + rng.choice(ODD) + ts[k][j + rng.randrange(2):]
    elif r < .8:                        # spaces: other ones, illegal ones, none
        ws = [j for j, t in enumerate(ts) if t.isspace()]
        if ws:
            k = rng.choice(ws)
        x = rng.random()
        ts[k] = rng.choice(SPACES) if x < .3 else '' if x < .5 else rng.choice(NOSPACES) if x < .7 else ts[k] + rng.choice(NOSPACES) if x < .85 else rng.choice(COMMENTS)
    elif r < .9:
        ts.insert(k, rng.choice(COMMENTS if rng.random() < .55 else NOCOMMENTS))
    elif r < .95:
        ts.insert(k, rng.choice(SPACES + NOSPACES))
    else:                               # a whole line elsewhere: includes behind declarations, members outside, declarations inside
        ls = text.split('\n')
        x = ls.pop(rng.randrange(len(ls)))
        ls.insert(rng.randrange(len(ls) + 1), x)
        return '\n'.join(ls)
    return ''.join(ts)


def esc(t):
    """only \\1 is a reference in a replacement"""
    return re.sub(r'\\(?!1)', r'\\\\', t)


def edit(rng, text):
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        text = one(rng, text)
    return text


def respell(rng, text):
    """the same tokens with other spaces and comments between them, as far as the grammar lets them be there (reflang has the say)"""
    out = []
    eol = rng.choice(['\n', '\r\n', '\r', '\n', '\r\n'])
    dense = rng.random() < .3
    for t in PIECE.findall(text):
        if t.isspace():
            r = rng.random()
            out.append(eol if t in '\r\n' else t if r < .8 else rng.choice(SPACES))
        else:
            if not dense and rng.random() < .03:
                out.append(rng.choice(SPACES + COMMENTS))
            out.append(t)
    return ''.join(out)
