"""What the OpenMP runtime of the monitored builds reports about an execution."""
import subprocess, re, collections

_names = {}
def names(binary):
    if binary not in _names:
        d = {}
        for l in subprocess.run(["nm", binary], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
            w = l.split()
            if len(w) == 3 and "_omp_fn" in w[2]: d[int(w[0], 16)] = w[2]
        _names[binary] = d
    return _names[binary]

class Log:
    """sums over all executions of a check"""
    def __init__(self, chk):
        self.chk, self.regions, self.t = chk, collections.Counter(), collections.Counter()
        self.hashes = set()
    def add(self, text, binary):
        nm = names(binary)
        with self.chk.lock:
            for l in (text or "").split("\n"):
                w = l.split()
                if len(w) == 5 and w[0] == "T":
                    self.t["parallel regions entered"] += int(w[1]); self.t["chunks handed out"] += int(w[2]); self.t["forced switches"] += int(w[3])
                    self.hashes.add(w[4])
                if len(w) == 3 and w[0] == "R":
                    self.regions[re.sub(r"\..*", "", nm.get(int(w[1], 16), "?"))] += int(w[2])
    def extra(self):
        return dict(schedule=dict(self.t, distinct_schedules=len(self.hashes)), parallel_regions={k: self.regions[k] for k in sorted(self.regions)})
