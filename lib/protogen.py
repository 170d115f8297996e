"""Convert the edition-2023 protos of /repo to proto2 and run the installed protoc on them.

The generated headers are only parsed (they give the analyser the real message classes and
enumerators); nothing here is compiled into an executable.
"""
import os, re, subprocess, sys, glob, hashlib

def convert(text):
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    text = text.replace('edition = "2023";', 'syntax = "proto2";')
    text = re.sub(r'option\s+features\.[\w.]+\s*=\s*\w+\s*;', '', text)
    text = re.sub(r'features\.[\w.]+\s*=\s*\w+\s*,?', '', text)
    text = re.sub(r'\[\s*\]', '', text)
    # Tokenise into statements while tracking the block kind.
    out, stack, i, start = [], [], 0, 0
    buf = ''
    while i < len(text):
        c = text[i]
        if c == '"':
            j = text.index('"', i + 1)
            buf += text[i:j + 1]
            i = j + 1
            continue
        if c == '[':
            j = text.index(']', i)
            buf += text[i:j + 1]
            i = j + 1
            continue
        if c == '{':
            m = re.search(r'(message|enum|oneof|extend|service)\s+\w+\s*$', buf)
            stack.append(m.group(1) if m else 'other')
            out.append(buf + '{')
            buf = ''
        elif c == '}':
            out.append(buf + '}')
            buf = ''
            stack.pop()
        elif c == ';':
            st = buf
            if re.match(r'\s*reserved\b', st):
                st = ''
            m = re.match(r'(\s*)([A-Za-z_.][\w.]*)(\s+[\w]+\s*=\s*\d+.*)$', st, re.S)
            if stack and stack[-1] == 'message' and m and m.group(2) not in (
                    'option', 'reserved', 'optional', 'required', 'repeated', 'map', 'extensions'):
                st = m.group(1) + 'optional ' + m.group(2) + m.group(3)
            out.append(st + ';')
            buf = ''
        else:
            buf += c
        i += 1
    out.append(buf)
    return ''.join(out)

def generate(repo, outdir):
    protos = sorted(glob.glob(os.path.join(repo, 'iamf/cli/proto/*.proto')))
    h = hashlib.sha256()
    h.update(open(__file__, 'rb').read())
    for p in protos:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    stamp = os.path.join(outdir, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return outdir
    src = os.path.join(outdir, 'src')
    gen = os.path.join(outdir, 'gen')
    os.makedirs(os.path.join(src, 'iamf/cli/proto'), exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    names = []
    for p in protos:
        rel = os.path.relpath(p, repo)
        with open(os.path.join(src, rel), 'w') as f:
            f.write(convert(open(p).read()))
        names.append(rel)
    r = subprocess.run(['protoc', '-I', src, '--cpp_out=' + gen] + names, cwd=src,
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('protoc failed:\n' + r.stderr)
    # Newer protobuf takes string_view where the installed one takes std::string.
    for p in glob.glob(os.path.join(gen, 'iamf/cli/proto/*.pb.h')):
        t = open(p).read()
        t = re.sub(r'\.Set\(static_cast<ArgT0 &&>\(arg0\), args\.\.\., ',
                   '.Set(std::string(static_cast<ArgT0 &&>(arg0), args...), ', t)
        open(p, 'w').write(t)
    os.makedirs(os.path.join(gen, 'google/protobuf'), exist_ok=True)
    t = open('/usr/include/google/protobuf/message_lite.h').read()
    t = re.sub(r'ParseFromString\((ConstStringParam|const std::string&) ',
               'ParseFromString(std::string_view ', t)
    t = t.replace('#include <string>', '#include <string>\n#include <string_view>', 1)
    open(os.path.join(gen, 'google/protobuf/message_lite.h'), 'w').write(t)
    with open(stamp, 'w') as f:
        f.write(h.hexdigest())
    return outdir

if __name__ == '__main__':
    generate(sys.argv[1], sys.argv[2])
