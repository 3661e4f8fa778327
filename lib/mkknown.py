"""Writes known_findings.json (run by hand when the list changes; checks only read the file)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = """
C09 cf9bdd8 array sizes 0 and above 65535 were unwrapped unchecked (undefined behaviour) instead of refused
C16 cf9bdd8 the same array sizes made debug and release builds decide differently
C10 0ec98e2 comments between the tokens of a declaration were refused although the grammar skips them
C14 0ec98e2 an ordinary comment before a method changed or dropped the documentation attached to it
C12 1e6f158 a file included over several paths was followed again each time (exponential time), directories satisfied an include
C16 1e6f158 exponential time on include diamonds
C09 5473f06 a constant named like a struct or an interface was accepted
C09 eaf691d restrictions were not applied to included files and by the library entry point; two object arrays in one direction and small arrays of object-bearing structs were accepted
C10 eaf691d valid declarations in included files were refused
C09 51f9c00 a bounded array of buffer was accepted
C06 9116855 the size of a struct overflowed silently
C16 9116855 struct size overflow panicked in debug builds only; the cycle pass was exponential
C01 fe75405 objects held by structs were dropped or crossed on the way; arguments landed in the wrong section
C02 fe75405 sections were not in BI, BO, OI, OO order and more than 15 arguments of a kind overflowed the counts word
C03 fe75405 bundles with padding, object handles inside buffers
C04 fe75405 skeletons accepted struct object counts that do not match
C05 fe75405 objects held by structs leaked or were released twice
C11 5072b57 C and C++ used structs and interfaces before their definition; locals collided with parameter names; untyped object arrays did not compile in C++
C11 cdf6720 Rust methods without arguments did not compile or crashed; locals collided with parameter names
C01 cdf6720 Rust reported output lengths in bytes instead of elements
C17 2796324 negative, octal-looking, boundary, hexadecimal and floating constants changed value or type or did not compile
C18 e44bc06 Java struct arrays, nested struct fields and multi-byte buffers were encoded wrongly; refused invocations were reported as served
C11 701e345 documentation with comment delimiters broke the comments of the generated code
C14 701e345 documentation leaked out of comments
C09 369d18c --dump pst succeeded on malformed text
C16 369d18c --dump pst exited 0 on malformed text
C14 6a84345 a marking file with comment delimiters ended its comment early
C11 91eb241 input object arrays were not const in untyped C signatures
C14 91eb241 --no-typed-objects changed constness of signatures
C19 ef52124 two interfaces whose names differ by case only silently collapsed into one Rust file
"""

OPEN = [
    dict(property='C16', sig='exponential-struct-nesting',
         what='structs whose nesting doubles at each level (struct A1 { A0 a; A0 b; }; ... A26) are expanded 2^n times: 26 levels exhaust time and memory '
              '(idlc_mir/src/mir.rs Type::new builds an owned tree; sharing it needs another StructInner than the one the unit tests construct)'),
    dict(property='C17', sig='java-int16-char',
         what='Java carries int16 as the unsigned type char: const int16 KNEG = -1 evaluates to 65535 (idlc_codegen_java/src/types.rs, kept for backward compatibility by '
              'an upstream comment)'),
    # C11: identifiers which meet the names a backend or its runtime uses itself. The generated names are part of the API of the generated code (or of the runtime), so
    # renaming them is not a small repair.
    dict(property='C11', sig='suffix-family', what='C/C++/Rust: method m(out uint32[] o, in interface o_ptr) (also o_len, o_lenout) declares one parameter twice'),
    dict(property='C11', sig='method-release-retain', what='C, C++, Java: a method named release or retain is generated next to the built-in one of the same name'),
    dict(property='C11', sig='method-invoke', what='C++: a method named invoke hides ImplBase::invoke (-Woverloaded-virtual)'),
    dict(property='C11', sig='java-object-methods', what='Java: a method named like one of java.lang.Object (toString, wait, notify, ...) does not compile'),
    dict(property='C11', sig='rust-inherent-methods', what='Rust: a method named as_ref, drop or into meets a trait or guard method of that name inside the generated code'),
    dict(property='C11', sig='parameter-named-like-type', what='C/C++: method m(in interface IB, in IB z) - the first parameter hides the type of the second'),
    dict(property='C11', sig='runtime-type-names', what='types named like a type of the runtime or prelude of a target (Object, ObjectBuf, ProxyBase, ImplBase in C/C++; Result, Option, Error in Rust; '
         'ByteBuffer, Proxy, IMinkObject, JMinkObject in Java)'),
    dict(property='C11', sig='foo-and-ifoo', what='C++: interfaces Foo and IFoo in one file - the abstract class of Foo is called IFoo'),
    dict(property='C11', sig='const-op-name', what='C/C++: a constant OP_m next to a method m'),
    dict(property='C11', sig='upper-case-collision', what='Java (constants, errors) and Rust (errors) upper-case names: names which differ by case only are defined twice'),
    dict(property='C11', sig='rust-prelude-parameter', what='Rust: a parameter named Some, None, Ok or Err is taken for the variant'),
    dict(property='C11', sig='java-interface-named-like-file', what='Java: an interface named exactly like the stem of its file is nested into the file-level interface of the same name'),
]


def main():
    fixed = []
    for ln in FIXED.strip().splitlines():
        p, c, w = ln.split(' ', 2)
        fixed.append('fixed: property=%s %s %s' % (p, c, w))
    for o in OPEN:
        o['status'] = 'open'
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': OPEN, 'fixed': fixed}, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
