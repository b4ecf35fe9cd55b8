#!/usr/bin/env python3
"""Writes the generated named types of pbt/internal/zoo/{a,b,x/a}/gen.go (fixed seed, output is committed)."""
import os, random

R = random.Random(20260)
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'pbt', 'internal', 'zoo')
N = 36
MOD = 'verif/pbt/internal/zoo'


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


PATTERNS = ['^[a-z]{2,4}$', '^[A-Z][0-9]+$', '^(red|green|blue)$', '[0-9]']


def num_tags(kind):
    t = []
    c = R.random()
    if c < 0.35:
        lo = R.randint(0, 5)
        hi = lo + R.randint(8, 40)
        if R.random() < 0.7:
            t.append((R.choice(['minimum', 'minimum', 'exclusiveMinimum']), str(lo)))
        if R.random() < 0.7:
            t.append((R.choice(['maximum', 'maximum', 'exclusiveMaximum']), str(hi)))
        if kind != 'float' and R.random() < 0.25:
            t.append(('multipleOf', str(R.choice([2, 3]))))
    elif c < 0.5:
        t.append(('enum', R.choice(['1,2,3', '5,7'])))
    if R.random() < 0.12:
        t.append(('default', '7'))
    if R.random() < 0.12:
        t.append(('example', '9'))
    return t


def str_tags():
    t = []
    c = R.random()
    if c < 0.25:
        t.append(('minLength', str(R.randint(1, 3))))
        if R.random() < 0.6:
            t.append(('maxLength', str(R.randint(4, 9))))
    elif c < 0.4:
        t.append(('pattern', R.choice(PATTERNS)))
    elif c < 0.55:
        t.append(('enum', R.choice(['foo,bar', 'a,b,c', '["x y","z"]'])))
    elif c < 0.65:
        t.append(('format', R.choice(['uuid', 'email', 'uri'])))
    if R.random() < 0.12:
        t.append(('default', 'def'))
    if R.random() < 0.12:
        t.append(('example', 'ex'))
    return t


def scalar():
    c = R.random()
    if c < 0.4:
        return 'string', str_tags()
    if c < 0.65:
        k = R.choice(['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint32', 'uint64'])
        return k, num_tags('int')
    if c < 0.75:
        return R.choice(['float32', 'float64']), num_tags('float')
    return 'bool', ([('default', 'true')] if R.random() < 0.1 else [])


def items_tags(prefix, tags):
    # Prefixed tags accumulate along nested lists and maps in jsonschema-go, so they are only used in unnamed structures.
    return []


def named(pkg, i, order):
    """Reference to a named struct: (expression, by value allowed)."""
    if order and R.random() < 0.25:
        p = R.choice(order)
        return p[1] + '.Item%d' % R.randrange(N), True
    j = R.randrange(N)
    return 'Item%d' % j, j < i


def field(pkg, i, order, depth=0):
    c = R.random()
    tags = []
    if c < 0.45:
        return scalar()
    if c < 0.55:
        s, st = scalar()
        while s == 'uint8':
            s, st = scalar()
        tags = items_tags('items.', st)
        if R.random() < 0.4:
            tags.append(('minItems', str(R.randint(1, 2))))
        if R.random() < 0.4:
            tags.append(('maxItems', str(R.randint(3, 5))))
        if R.random() < 0.2 and s != 'bool' and not any(k.endswith('enum') for k, _ in tags):
            tags.append(('uniqueItems', 'true'))
        return '[]' + s, tags
    if c < 0.62:
        s, st = scalar()
        tags = items_tags('additionalProperties.', st)
        if R.random() < 0.3:
            tags.append(('maxProperties', '4'))
        if R.random() < 0.2:
            tags.append(('minProperties', '1'))
        return 'map[string]' + s, tags
    if c < 0.8:
        n, val = named(pkg, i, order)
        f = R.random()
        if f < 0.35 and val:
            return n, [('description', 'Nested value.')] if R.random() < 0.2 else []
        if f < 0.55:
            return '*' + n, [('deprecated', 'true')] if R.random() < 0.15 else []
        if f < 0.75:
            return '[]' + n, []
        if f < 0.85:
            return '[]*' + n, []
        return 'map[string]' + n, []
    if c < 0.85:
        s, st = scalar()
        return '*' + s, st
    if c < 0.9 and depth == 0:
        fs = []
        for k in range(R.randint(1, 3)):
            t, tg = field(pkg, i, order, 1)
            fs.append('%s %s `json:"%s"%s`' % ('In%d' % k, t, 'in%d' % k, tagstr(tg)))
        return R.choice(['', '[]']) + 'struct { ' + '; '.join(fs) + ' }', []
    return R.choice(['time.Time', '[]byte', 'json.RawMessage', 'interface{}', '[]interface{}',
                     'map[string]interface{}', '[3]int', '[][]string', 'map[string][]int', 'Scalar%d' % R.randrange(8)]), []


def tagstr(tags):
    return ''.join(' %s:%s' % (k, quote(v)) for k, v in tags)


def gen(pkg, path, order):
    out = ['// Code generated by tools/genzoo.py. DO NOT EDIT.', '', '// Package %s holds generated sample types.' % pkg,
           'package %s' % pkg, '', 'import (', '\t"encoding/json"', '\t"time"', '']
    for p, alias in order:
        out.append('\t%s "%s/%s"' % (alias, MOD, p))
    out += [')', '', 'var (', '\t_ json.RawMessage', '\t_ time.Time']
    for p, alias in order:
        out.append('\t_ %s.Item0' % alias)
    out += [')', '']
    for i, k in enumerate(['string', 'int', 'int64', 'uint16', 'float64', 'bool', 'int32', 'string']):
        out += ['// Scalar%d is a named scalar.' % i, 'type Scalar%d %s' % (i, k), '']
    for i in range(N):
        out += ['// Item%d is a sample.' % i, 'type Item%d struct {' % i]
        used = set()
        emb = [j for j in range(max(0, i - 6), i)]
        if i > 4 and R.random() < 0.15:
            out.append('\tBase%d' % R.randrange(3))
        for k in range(R.randint(1, 6)):
            t, tags = field(pkg, i, order)
            if 'Scalar' in t:
                if t in used:
                    t = 'string'
                used.add(t)
            name = 'f%d' % k if R.random() < 0.8 else R.choice(['snake_%d', 'kebab-%d', 'UPPER%d', 'dot.%d']) % k
            opt = R.random()
            suffix = ',omitempty' if opt < 0.3 else ''
            if opt > 0.7:
                tags = [('required', 'true')] + tags
            if R.random() < 0.1:
                tags = tags + [('title', 'T%d' % k)]
            if R.random() < 0.1 and not any(k_ == 'description' for k_, _ in tags):
                tags = tags + [('description', 'Field %d.' % k)]
            out.append('\tF%d %s `json:"%s%s"%s`' % (k, t, name, suffix, tagstr(tags)))
        if R.random() < 0.12:
            out.append('\tHidden string `json:"-"`')
        if R.random() < 0.12:
            out.append('\tNoTag int')
        if R.random() < 0.1:
            out.append('\t_ struct{} `additionalProperties:"false" title:"Closed"`')
        out += ['}', '']
    for b in range(3):
        out += ['// Base%d is embedded.' % b, 'type Base%d struct {' % b]
        for k in range(R.randint(1, 3)):
            t, tags = scalar()
            out.append('\tB%d%d %s `json:"b%d%d"%s`' % (b, k, t, b, k, tagstr(tags)))
        out += ['}', '']
    for i in range(12):
        body = R.choice(['json', 'json', 'json', 'formData', 'form', '', 'mixed'])
        out += ['// Req%d is a request.' % i, 'type Req%d struct {' % i]
        if R.random() < 0.2:
            out.append('\tParams%d' % R.randrange(3))
        for k in range(R.randint(1, 5)):
            loc = R.choice(['query', 'query', 'path', 'header', 'cookie', 'body', 'body'])
            if loc == 'body' and body == '':
                loc = 'query'
            if loc == 'body':
                for b in (['json', 'formData'] if body == 'mixed' else [body]):
                    t, tags = scalar() if b != 'json' else field(pkg, N, order)
                    if b == 'json' and 'Scalar' in t:
                        t, tags = 'bool', []
                    if R.random() < 0.3:
                        tags = [('required', 'true')] + tags
                    nm = 'B%d%s' % (k, b[0].upper())
                    out.append('\t%s %s `%s:"b%d"%s`' % (nm, t, b, k, tagstr(tags)))
                continue
            t, tags = scalar()
            c = R.random()
            if c < 0.15:
                t, tags = '[]' + t.replace('uint8', 'int8'), [('collectionFormat', R.choice(['csv', 'multi']))]
            elif c < 0.3:
                t = '*' + t
            if R.random() < 0.3:
                tags = [('required', 'true')] + tags
            if R.random() < 0.15:
                tags.append(('deprecated', 'true'))
            if R.random() < 0.15:
                tags.append(('description', 'Parameter %d.' % k))
            name = {'header': 'X-P%d', 'query': 'q%d', 'path': 'p%d', 'cookie': 'c%d'}[loc] % k
            extra = ' json:"-"' if R.random() < 0.3 else ''
            out.append('\tP%d %s `%s:"%s"%s%s`' % (k, t, loc, name, extra, tagstr(tags)))
        if R.random() < 0.15:
            out.append('\t_ struct{} `%s:"_" additionalProperties:"false"`' % R.choice(['query', 'header', 'cookie']))
        out += ['}', '']
    for i in range(12):
        out += ['// Resp%d is a response.' % i, 'type Resp%d struct {' % i]
        for k in range(R.randint(1, 4)):
            if R.random() < 0.4:
                t, tags = scalar()
                if R.random() < 0.2:
                    t, tags = '[]' + t.replace('uint8', 'int8'), []
                if R.random() < 0.3:
                    tags = [('required', 'true')] + tags
                if R.random() < 0.2:
                    tags.append(('description', 'Header %d.' % k))
                if R.random() < 0.2:
                    tags.append(('deprecated', 'true'))
                out.append('\tH%d %s `header:"X-H%d" json:"-"%s`' % (k, t, k, tagstr(tags)))
            else:
                t, tags = field(pkg, N, order)
                if 'Scalar' in t:
                    t = 'float64'
                out.append('\tF%d %s `json:"f%d"%s`' % (k, t, k, tagstr(tags)))
        if R.random() < 0.2:
            out.append('\t_ struct{} `description:"Response %d."`' % i)
        out += ['}', '']
    for b in range(3):
        out += ['// Params%d is embedded.' % b, 'type Params%d struct {' % b]
        for k in range(R.randint(1, 3)):
            t, tags = scalar()
            loc = R.choice(['query', 'header', 'cookie'])
            out.append('\tE%d%d %s `%s:"e%d%d"%s`' % (b, k, t, loc, b, k, tagstr(tags)))
        out += ['}', '']
    for i in range(6):
        j = R.randrange(N)
        out += ['// List%d is a named list.' % i, 'type List%d []Item%d' % (i, j), '']
        out += ['// Dict%d is a named map.' % i, 'type Dict%d map[string]Item%d' % (i, j), '']
    out += ['// All lists the types.', 'var All = map[string]interface{}{']
    key = path
    for n in ['Item%d' % i for i in range(N)] + ['List%d' % i for i in range(6)] + ['Dict%d' % i for i in range(6)]:
        out.append('\t"%s.%s": %s{},' % (key, n, n))
    for i, z in enumerate(['""', '0', '0', '0', '0', 'false', '0', '""']):
        out.append('\t"%s.Scalar%d": Scalar%d(%s),' % (key, i, i, z))
    out += ['}', '', '// Requests lists request types.', 'var Requests = map[string]interface{}{']
    out += ['\t"%s.Req%d": Req%d{},' % (key, i, i) for i in range(12)]
    out += ['}', '', '// Responses lists response types.', 'var Responses = map[string]interface{}{']
    out += ['\t"%s.Resp%d": Resp%d{},' % (key, i, i) for i in range(12)]
    out += ['}', '', '// Embeds lists types to be embedded.', 'var Embeds = map[string]interface{}{']
    out += ['\t"%s.Params%d": Params%d{},' % (key, i, i) for i in range(3)]
    out += ['}', '']
    d = os.path.join(ROOT, path)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'gen.go'), 'w') as f:
        f.write('\n'.join(out))


gen('a', 'a', [])
gen('b', 'b', [('a', 'a')])
gen('a', 'x/a', [('b', 'b'), ('a', 'a2')])
