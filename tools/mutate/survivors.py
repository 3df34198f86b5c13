"""survivors.py MUTANTS OUT N SEED: which of N random mutants compile and pass the stable tests."""
import json, os, queue, random, shutil, subprocess, sys, threading

mutants = [json.loads(l) for l in open(sys.argv[1])]
out, n, seed = open(sys.argv[2], "a"), int(sys.argv[3]), int(sys.argv[4])
random.Random(seed).shuffle(mutants)
mutants = mutants[:n]
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
q = queue.Queue()
for m in mutants:
    q.put(m)
lock = threading.Lock()
stat = {}


def sh(cmd, cwd, t=60):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, start_new_session=True).returncode
    except subprocess.TimeoutExpired:
        return -1


def work(i):
    repo = "/tmp/mutrepo%d" % i
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", repo])
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(repo, m["file"])
        old = open(path, "rb").read()
        open(path, "wb").write(old[:m["from"]] + m["text"].encode() + old[m["to"]:])
        pkg = "./" + os.path.dirname(m["file"])
        r = "build" if sh("go build ./...", repo) else None
        if not r:
            r = "killed" if sh("timeout 40 go test -vet=off -timeout 30s %s" % pkg, repo) else None
        if not r:
            r = "killed" if sh("timeout 60 go test -vet=off -timeout 30s ./...", repo, 90) else "survived"
        open(path, "wb").write(old)
        with lock:
            stat[r] = stat.get(r, 0) + 1
            if r == "survived":
                out.write(json.dumps(m) + "\n")
                out.flush()
            if sum(stat.values()) % 100 == 0:
                print(stat, flush=True)
    shutil.rmtree(repo, ignore_errors=True)


ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("W", "5")))]
[t.start() for t in ts]
[t.join() for t in ts]
print(stat)
