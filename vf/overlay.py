"""Build an importable LEGWORK from /repo's working tree.

The overlay is a scratch package directory whose entries are symlinks to /repo/src/legwork/* (so the code
that runs is the working tree itself), plus surrogates for the two large data files which are not in this
repository (harmonics.npz and peters_g.npy).  The surrogates hold the values that /repo/helpers generate,
computed with this framework's own reference g(n, e).  If the repository has the real files they are used.
"""
import os
import shutil
import tempfile

REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "legwork")

H_E_MIN, H_E_MAX, H_E_LEN, H_N_MAX = 0.0, 0.96, 240, 1000


def build(need=(), exclude=()):
    """Create the overlay, returns its path. ``need`` may contain 'harmonics' and 'peters_g'"""
    root = tempfile.mkdtemp(prefix="vf_overlay_")
    pkg = os.path.join(root, "legwork")
    os.mkdir(pkg)
    for entry in sorted(os.listdir(SRC)):
        if entry in ("__pycache__", "tests") or entry in exclude:
            continue
        os.symlink(os.path.join(SRC, entry), os.path.join(pkg, entry))
    add_data(root, need)
    return root


def add_data(root, need):
    """add surrogates for the data files that the repository lacks"""
    pkg = os.path.join(root, "legwork")
    if "harmonics" in need and not os.path.exists(os.path.join(pkg, "harmonics.npz")):
        make_harmonics(os.path.join(pkg, "harmonics.npz"))
    if "peters_g" in need and not os.path.exists(os.path.join(pkg, "peters_g.npy")):
        make_peters_g(os.path.join(pkg, "peters_g.npy"))


def remove(root):
    if os.path.basename(root).startswith("vf_overlay_"):
        shutil.rmtree(root, ignore_errors=True)


def harmonics_e_range(e_min=H_E_MIN, e_max=H_E_MAX, e_len=H_E_LEN):
    import numpy as np
    return 1 - np.logspace(np.log10(1 - e_min), np.log10(1 - e_max), e_len)


def make_harmonics(path):
    import numpy as np
    from . import ref
    e = harmonics_e_range()
    n = np.arange(1, H_N_MAX + 1)
    g = ref.peters_g(n[np.newaxis, :], e[:, np.newaxis])
    with open(path, "wb") as fh:
        np.savez(fh, e_lims=np.array([H_E_MIN, H_E_MAX, H_E_LEN]), n_max=np.array(H_N_MAX), g_vals=g)


def _g_rows(args):
    import numpy as np
    from . import ref
    lo, hi = args
    e = np.linspace(0, 1, 1000)[lo:hi]
    n = np.arange(1, 10001)
    return ref.peters_g_sparse(n, e)


def make_peters_g(path):
    import numpy as np
    from multiprocessing import get_context
    # high eccentricities cost most (more non-negligible harmonics), so hand out small interleaved blocks
    blocks = [(i, min(i + 20, 1000)) for i in range(0, 1000, 20)]
    with get_context("fork").Pool(8) as pool:
        rows = pool.map(_g_rows, blocks[::-1], chunksize=1)[::-1]
    np.save(path, np.concatenate(rows, axis=0))
