"""Where the freshly built vspipe / libvsscript finds its Python: a private XDG_CONFIG_HOME."""
import os, subprocess

PY = "/opt/vp/venv/bin/python3"


def env(libdir, tmp):
    lib = subprocess.run([PY, "-c", "import sysconfig as s; print(s.get_config_var('LIBDIR') + '/' + s.get_config_var('INSTSONAME'))"],
                         capture_output=True, text=True, check=True).stdout.strip()
    d = os.path.join(tmp, "xdg", "vapoursynth")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(libdir, "libvsscript.so")
    with open(os.path.join(d, "vapoursynth.toml"), "w") as f:
        for p in {so, so.replace("/lib64/", "/lib/")}:
            f.write('"%s" = "%s" "%s" "%d"\n' % (p, PY, lib, int(os.stat(PY).st_mtime)))
    e = dict(os.environ)
    e.update(XDG_CONFIG_HOME=os.path.dirname(d), PYTHONPATH=os.path.dirname(libdir), PYTHONDONTWRITEBYTECODE="1", HOME=tmp)
    return e
