"""Type-level witnesses: programs that must, and programs that must not, be
accepted by the type checker against the library as it is now."""
import concurrent.futures
import os
import subprocess
from .extract import lib_info, sysroot
from .spec import MODULES

PRE = "#![allow(dead_code, unused)]\n#![no_std]\nextern crate text_encoding as te;\n" \
      "use te::{DecodeError, DecodeErrorCause, EncodeError};\n"


def sig(m, d):
    out = "for<'a, 'b> fn(&'b %s, &'a mut [u8]%s) -> Result<(&'a %s, usize), %s>"
    if d == "enc":
        return out % ("str", ", bool" if m == "big5_whatwg" else "", "[u8]", "EncodeError")
    flag = "" if m.startswith("single_byte") else ", bool"
    return out % ("[u8]", flag, "str", "DecodeError")


def fn(m, d):
    return "te::%s::%s" % (m, "encode_from_str" if d == "enc" else "decode_to_str")


def witnesses():
    """(name, what it shows, source, expected error codes or None)"""
    w = []
    for m in MODULES:
        for d in ("enc", "dec"):
            w.append(("sig %s %s" % (m, d), "%s has the documented signature" % fn(m, d),
                      "pub const F: %s = %s;\n" % (sig(m, d), fn(m, d)), None))
    w.append(("err fields", "error values expose their documented public fields",
              "pub fn f(e: EncodeError) -> (char, (usize, usize), usize) {\n"
              " let EncodeError { character: a, error_range: b, output_bytes_written: c } = e; (a, b, c) }\n"
              "pub fn g(e: DecodeError) -> (DecodeErrorCause, (usize, usize), usize) {\n"
              " let DecodeError { cause: a, error_range: b, output_bytes_written: c } = e; (a, b, c) }\n"
              "pub fn h(c: DecodeErrorCause) -> u8 { match c { DecodeErrorCause::InvalidData => 0,\n"
              " DecodeErrorCause::UnknownConversion => 1, #[allow(unreachable_patterns)] _ => 2 } }\n", None))
    w.append(("err traits", "errors are plain values: Copy, comparable, printable, shareable, borrowing nothing",
              "fn need<T: Copy + Clone + PartialEq + core::fmt::Debug + Send + Sync + 'static>() {}\n"
              "pub fn f() { need::<EncodeError>(); need::<DecodeError>(); need::<DecodeErrorCause>(); }\n", None))
    w.append(("result aliases", "the result aliases mean what the functions return",
              "pub fn f<'a>(r: te::EncodeResult<'a>) -> Result<(&'a [u8], usize), EncodeError> { r }\n"
              "pub fn g<'a>(r: te::DecodeResult<'a>) -> Result<(&'a str, usize), DecodeError> { r }\n", None))
    for m in ("utf8", "utf16_be", "utf16_le", "utf32_be", "utf32_le", "big5_whatwg", "shiftjis_whatwg",
              "single_byte::ascii", "single_byte::windows_1252"):
        for d in ("enc", "dec"):
            call = fn(m, d)
            inp = '"x"' if d == "enc" else 'b"x"'
            fl = ", true" if "bool" in sig(m, d) else ""
            own = ("[120u8; 1]", "core::str::from_utf8(&s).unwrap()") if d == "enc" else ("[120u8; 1]", "&s[..]")
            w.append(("reuse %s %s" % (m, d), "the buffer can be used again once the result is gone",
                      "pub fn f() { let mut b = [0u8; 8]; { let _r = %s(%s, &mut b%s).unwrap(); } b[0] = 1; }\n"
                      % (call, inp, fl), None))
            w.append(("input free %s %s" % (m, d), "the result does not borrow the input",
                      "pub fn f() -> usize { let mut b = [0u8; 8]; let r = { let s = %s; %s(%s, &mut b%s).unwrap().0 };"
                      " r.len() }\n" % (own[0], call, own[1], fl), None))
            w.append(("alias %s %s" % (m, d), "the buffer cannot be changed under a live result",
                      "pub fn f() -> usize { let mut b = [0u8; 8]; let r = %s(%s, &mut b%s).unwrap(); b[0] = 1;"
                      " r.0.len() }\n" % (call, inp, fl), ("E0506", "E0503")))
            w.append(("outlive %s %s" % (m, d), "the result cannot outlive the buffer",
                      "pub fn f() -> usize { let r = { let mut b = [0u8; 8]; %s(%s, &mut b%s).unwrap().0 };"
                      " r.len() }\n" % (call, inp, fl), ("E0597", "E0716")))
            w.append(("input order %s %s" % (m, d), "the buffer cannot double as the input",
                      "pub fn f() { let mut b = [0u8; 8]; let s: &[u8] = &b; %s let _r = %s(%s, &mut b%s); }\n"
                      % ("let t = unsafe { core::str::from_utf8_unchecked(s) };" if d == "enc" else "", call,
                         "t" if d == "enc" else "s", fl), ("E0502",)))
    return w


def check(repo, scratch):
    name, path, edition, cargo = lib_info(repo)
    root = sysroot()
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(root, "lib"))
    rustc = os.path.join(root, "bin", "rustc")
    meta = os.path.join(scratch, "lib%s.rmeta" % name)
    r = subprocess.run([rustc, path, "--crate-type", "lib", "--crate-name", name, "--edition", edition,
                        "--emit=metadata", "-A", "warnings", "-o", meta], capture_output=True, text=True, cwd=repo,
                       env=env)
    if r.returncode:
        raise RuntimeError("the library does not compile: " + r.stderr[-2000:])
    ws = witnesses()

    def one(i):
        nm, what, src, want = ws[i]
        f = os.path.join(scratch, "w%d.rs" % i)
        open(f, "w").write(PRE + src)
        r = subprocess.run([rustc, f, "--crate-type", "lib", "--crate-name", "w%d" % i, "--edition", "2021",
                            "--emit=metadata", "--error-format=short", "-A", "warnings", "--extern",
                            "text_encoding=" + meta, "-o", os.path.join(scratch, "w%d.rmeta" % i)],
                           capture_output=True, text=True, cwd=scratch, env=env)
        codes = {c for l in r.stderr.splitlines() if "error[" in l for c in [l.split("error[", 1)[1].split("]")[0]]}
        first = next((l for l in r.stderr.splitlines() if "error" in l), "")
        if want is None:
            return (r.returncode == 0, nm, what, "rejected: " + first, codes)
        if r.returncode == 0:
            return (False, nm, what, "a program that breaks this is accepted", codes)
        if not (codes & set(want)):
            return (None, nm, what, "rejected for another reason: " + first, codes)
        return (True, nm, what, "", codes)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(ws)))), cargo
