"""Running the generator as an unprivileged user inside a scratch directory, so that nothing it does can reach real files."""
import atexit, os, shutil, subprocess, tempfile
import common

UID = 65534


class Jail:
    def __init__(self, *programs):
        base = tempfile.mkdtemp(prefix="verif-jail")
        self.base = base
        me = os.getpid()
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda: os.getpid() == me and subprocess.run(["chmod", "-R", "u+rwx", base], stderr=subprocess.DEVNULL) and shutil.rmtree(base, ignore_errors=True))
        os.chmod(base, 0o755)
        self.bin = os.path.join(base, "bin")
        os.mkdir(self.bin)
        os.chmod(self.bin, 0o755)
        for p in programs:
            self.add(p)
        self.work = os.path.join(base, "work")
        os.mkdir(self.work)
        self.own(self.work)

    def add(self, p, name=None):
        d = os.path.join(self.bin, name or os.path.basename(p))
        shutil.copy(p, d)
        os.chmod(d, 0o755)
        return d

    def own(self, p):
        if os.getuid() == 0:
            os.chown(p, UID, UID)

    def dir(self, name):
        p = os.path.join(self.work, name)
        os.makedirs(p)
        self.own(p)
        return p

    def write(self, p, data, mode=0o644):
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        self.own(p)
        os.chmod(p, mode)
        return p

    @staticmethod
    def drop():
        os.umask(0o022)
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)

    def run(self, cmd, cwd, timeout=20, extra=None, stdin=None):
        return common.run(cmd, cwd=cwd, timeout=timeout, extra=extra, stdin=stdin, preexec=self.drop)
