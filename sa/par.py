"""parallel map by forking: the children share the summaries already computed"""
import os
import pickle


def pmap(fn, items, n=None):
    """[fn(x) for x in items], in order; the results must be picklable.  An exception of fn is raised here"""
    items = list(items)
    n = min(n or os.cpu_count() or 1, len(items))
    if n <= 1:
        return [fn(x) for x in items]
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for i in range(w, len(items), n):
                    try:
                        out.append((i, True, fn(items[i])))
                    except Exception as e:          # handed to the parent
                        out.append((i, False, "%s: %s" % (type(e).__name__, e)))
                        break
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    res, err = {}, None
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or "a worker died"
            continue
        for i, good, v in pickle.loads(data):
            if good:
                res[i] = v
            else:
                err = err or v
    if err is not None:
        raise RuntimeError(err)
    return [res[i] for i in range(len(items))]
