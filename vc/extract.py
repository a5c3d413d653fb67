#!/usr/bin/env python3
"""Mechanical, token-level re-typing of /repo's C++ (headers and sources) so that it can be compiled with the
verifier's symbolic real type in place of `double`.

    extract.py REPO OUT

Everything is kept - control flow, calls, templates, includes, macros - except:
  * the type token `double` becomes `::vp::Real`
  * a decimal floating literal `1.5e-3` becomes `::vp::Real(1.5e-3)`
  * the Eigen typedef names ending in d (Vector3d, MatrixXd, Quaterniond, ...) become the same names ending in R,
    which vc/real.hpp declares with scalar ::vp::Real
  * `normal_distribution<>` and `uniform_real_distribution<>` (default argument double) get the argument ::vp::Real
  * `typeid(float)`-style uses of float are left alone
Comments, string and character literals and preprocessor `#include` lines are untouched; line numbers are preserved.
"""
import os, re, sys

TOK = re.compile(r'''
  (?P<raw>R"(?P<d>[^()\s\\]{0,16})\(.*?\)(?P=d)")
 |(?P<lc>//(?:[^\n\\]|\\.|\\\n)*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>"(?:[^"\\\n]|\\.)*")
 |(?P<chr>'(?:[^'\\\n]|\\.)+')
 |(?P<inc>^[ \t]*\#[ \t]*(?:include|error|pragma)\b[^\n]*)
 |(?P<num>(?:\d[\d']*\.\d*|\.\d+|\d[\d']*(?=[eE]))(?:[eE][+-]?\d+)?[fFlL]?(?![\w.]))
 |(?P<pp>\.?\d(?:[eEpP][+-]|[\w.'])*)
 |(?P<id>[A-Za-z_]\w*)
''', re.S | re.M | re.X)

EIG = re.compile(r'^((?:Vector|RowVector|Matrix|Array)(?:X|\d|XX|\d\dX|X\d)|Quaternion|AngleAxis|Rotation2D|'
                 r'QuaternionMap|Affine[23]|Isometry[23]|Transform3|Translation[23]|Projective3|Scaling|'
                 r'AffineCompact3|QuaternionMapAligned)d$')

def retype(text):
    def sub(m):
        k = m.lastgroup if m.lastgroup != 'd' else 'raw'
        s = m.group(0)
        if m.group('num') is not None:
            if s[-1] in 'fFlL':
                s = s[:-1]
            return '::vp::Real(%s)' % s
        if m.group('id') is not None:
            if s == 'double':
                return '::vp::Real'
            e = EIG.match(s)
            if e:
                return e.group(1) + 'R'
        return s
    text = TOK.sub(sub, text)
    text = re.sub(r'\blong\s+::vp::Real\b', '::vp::Real', text)
    text = re.sub(r'\b(normal_distribution|uniform_real_distribution)\s*<\s*>', r'\1< ::vp::Real>', text)
    return text

def main():
    repo, out = sys.argv[1:3]
    n = 0
    for top in ('include', 'src'):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.join(out, os.path.relpath(p, repo))
                if not f.endswith(('.hpp', '.hxx', '.cpp', '.h', '.in', '.cc', '.hh', '.cxx', '.ipp', '.tpp', '.inl')):
                    continue
                os.makedirs(os.path.dirname(q), exist_ok=True)
                t = open(p, encoding='utf-8', errors='surrogateescape').read()
                r = t if f.endswith('.in') else retype(t)
                open(q, 'w', encoding='utf-8', errors='surrogateescape').write(r)
                n += 1
    cfg = os.path.join(out, 'include/state-observation/config.h.in')
    if os.path.exists(cfg):
        t = re.sub(r'\$<CONFIG:(\w+)>', lambda m: '1' if m.group(1) == 'Debug' else '0', open(cfg).read())
        open(cfg[:-3], 'w').write(t)
    print('re-typed', n, 'files')

main()
