"""The derived text types that are analysed: what is declared, and from that
the Rust declaration (fixtures/text) and the rule."""

# name: (mode, whitespace or None, [(variant, declared text, 'unit'/'unknown', or type of a union's variant)])
TYPES = {
    'R1': ('restriction', None, [('Alpha', 'Alpha', None), ('Beta', 'b', 'rename'), ('Gamma', 'g g', 'rename')]),
    'R2': ('restriction', 'collapse', [('Alpha', 'Alpha', None), ('Beta', 'Alph', 'rename'), ('Rest', None, 'unknown')]),
    'R3': ('restriction', 'replace', [('Rest', None, 'unknown'), ('Small', 's', 'rename'), ('Large', 'l', 'rename')]),
    'R4': ('restriction', 'preserve', [('Null', '', 'rename'), ('r#Self_', 'Self_', None), ('Alpha', 'alpha', 'rename'),
                                       ('Low', 'Alpha', 'rename')]),
    'R5': ('restriction', None, [('Beta', 'b', 'rename'), ('Rest', None, 'unknown'), ('Alpha', 'a', 'rename')]),
    'R6': ('restriction', None, [('One', '"1"\\', 'rename')]),
    'R7': ('restriction', 'collapse', [('M', 'm', 'rename'), ('C', 'C', None), ('R#'.lower() + 'Z', 'Z', None), ('Cc', 'c', 'rename'),
                                       ('Sp', ' ', 'rename'), ('Two', 'a b', 'rename'), ('N1', '1', 'rename'), ('N10', '10', 'rename'),
                                       ('Uni', 'é', 'rename'), ('Long', 'x' * 70, 'rename'), ('A', 'A', None), ('Nl', 'a\nb', 'rename')]),
    'R8': ('restriction', 'replace', [('Rest', None, 'unknown')]),
    'U4': ('union', 'preserve', [('F', 'A', None), ('E', 'B', None), ('D', 'A', None), ('C4', 'B', None), ('B4', 'A', None),
                                 ('A4', 'C', None)]),
    'U1': ('union', None, [('First', 'A', None), ('Second', 'B', None), ('Third', 'C', None)]),
    'U2': ('union', 'collapse', [('Zeta', 'C', None), ('Alpha', 'A', None), ('Mid', 'A', None)]),
    'U3': ('union', 'replace', [('Only', 'B', None)]),
    'R9': ('restriction', None, [('X%d' % i, '%s%d' % ('pom'[i % 3], i), 'rename') for i in range(40)]),
    'U5': ('union', None, [('V%d' % i, 'QADGBEHKCFILJMNPO'[i], None) for i in range(17)]),
    'S1': ('std', None, None),
    'S2': ('std', 'replace', None),
    'S3': ('std', 'collapse', None),
    'S4': ('std', 'preserve', None),
}


def rust_str(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')


def declare(name, d):
    mode, ws, vs = d
    o = '#[derive(ParseText, ToText)]\n#[static_xml(mode = "%s"%s)]\n' % (mode, ', whitespace = "%s"' % ws if ws else '')
    if mode == 'std':
        o += 'pub struct %s(u8);\nstd_mode!(%s);\n' % (name, name)
    else:
        o += 'pub enum %s {\n' % name
        for v, t, k in vs:
            if mode == 'union':
                o += '    %s(%s),\n' % (v, t)
            elif k == 'unknown':
                o += '    #[static_xml(unknown)]\n    %s(String),\n' % v
            else:
                if k == 'rename':
                    o += '    #[static_xml(rename = %s)]\n' % rust_str(t)
                o += '    %s,\n' % v
        o += '}\n'
    low = name.lower()
    return o + 'derived!(%s, root_parse_%s, root_write_%s);\n\n' % (name, low, low)
