"""Comment-aware tokenisers for generated C, C++, Rust and Java (independent of the generators)."""
import re


class LexError(Exception):
    pass


def split(text, lang):
    """-> list of ('code'|'comment'|'ws', string); lang: c, rust, java.  Comments are recognised the way the language does."""
    out = []
    if lang == 'java':
        # \uXXXX is translated before anything else (only after an even number of backslashes)
        def tr(m):
            if len(m.group(1)) % 2:
                if not re.match(r'u+[0-9a-fA-F]{4}', m.group(2)):
                    raise LexError('illegal unicode escape')
                return m.group(1)[:-1] + chr(int(m.group(2).lstrip('u')[:4], 16))
            return m.group(0)
        text = re.sub(r'(\\+)(u+[0-9a-fA-F]{0,4})', tr, text)
    if lang == 'c':
        text = re.sub(r'\\[ \t]*\n', '', text)        # splices (compilers accept trailing blanks)
    i, n = 0, len(text)
    word = re.compile(r'[A-Za-z_0-9$\u0080-\U0010ffff]+')
    while i < n:
        c = text[i]
        if c in ' \t\n\r\f\v':
            j = i
            while j < n and text[j] in ' \t\n\r\f\v':
                j += 1
            out.append(('ws', text[i:j]))
        elif text.startswith('//', i):
            j = text.find('\n', i)
            if lang == 'java':
                k = text.find('\r', i)
                j = k if k >= 0 and (j < 0 or k < j) else j
            j = n if j < 0 else j
            out.append(('comment', text[i:j]))
        elif text.startswith('/*', i):
            if lang == 'rust':
                d, j = 1, i + 2
                while d:
                    a, b = text.find('/*', j), text.find('*/', j)
                    if b < 0:
                        raise LexError('unterminated comment')
                    if 0 <= a < b:
                        d, j = d + 1, a + 2
                    else:
                        d, j = d - 1, b + 2
            else:
                j = text.find('*/', i + 2)
                if j < 0:
                    raise LexError('unterminated comment')
                j += 2
            out.append(('comment', text[i:j]))
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            j += 1
            out.append(('code', text[i:j]))
        elif c == "'" and (lang != 'rust' or re.match(r"'(\\.[^']*|[^\\'])'", text[i:])):
            j = i + 1
            while j < n and text[j] != "'":
                j += 2 if text[j] == '\\' else 1
            j += 1
            out.append(('code', text[i:j]))
        else:
            m = word.match(text, i)
            j = m.end() if m else i + 1
            out.append(('code', text[i:j]))
        i = j
    return out


def code(text, lang):
    return [t for k, t in split(text, lang) if k == 'code']


LANG = {'c': 'c', 'cs': 'c', 'cn': 'c', 'csn': 'c', 'cpp': 'c', 'cpps': 'c', 'rust': 'rust', 'java': 'java'}
