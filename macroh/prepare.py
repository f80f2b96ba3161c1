"""Copies the source of /repo's macro crate so that its functions can be called from an ordinary program: the entry
points take and return proc_macro2 token streams."""
import os, re, shutil, sys
src, dst = sys.argv[1:]
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(src, dst)
for d, _, fs in os.walk(dst):
    for f in fs:
        if not f.endswith(".rs"): continue
        p = os.path.join(d, f)
        s = open(p).read()
        s = re.sub(r"#\[\s*proc_macro(_attribute|_derive\s*\([^]]*\))?\s*\]", "", s)
        s = re.sub(r"(?<!\$)\bcrate::", "crate::m::", s)
        s = re.sub(r"\bproc_macro::", "proc_macro2::", s)
        s = re.sub(r"\bextern\s+crate\s+proc_macro\s*;", "", s)
        s = re.sub(r"\bsyn::parse_macro_input!", "crate::pmi!", s)
        s = re.sub(r"\bparse_macro_input!", "crate::pmi!", s)
        s = re.sub(r"\bparse_macro_input\s*,?", "", s)
        s = re.sub(r"\bsyn::parse(\(|::<)", r"syn::parse2\1", s)
        open(p, "w").write(s)
