"""Process bootstrap: import the code under test from /repo's working tree, never from a cache."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

for _k in list(os.environ):
    if _k.lower() in ("http_proxy", "https_proxy", "all_proxy", "no_proxy", "requests_ca_bundle", "curl_ca_bundle",
                      "netrc", "pythonwarnings", "columns"):
        del os.environ[_k]
os.environ["NO_PROXY"] = "*"
os.environ["NETRC"] = "/nonexistent/netrc"


def ensure_interpreter(hashseed="0"):
    """Re-executes the current script under the pinned interpreter and hash seed."""
    want = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", hashseed), "PYTHONDONTWRITEBYTECODE": "1"}
    if os.environ.get("SIM_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["SIM_BOOTED"] = "1"
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(sys.argv[0])] + sys.argv[1:], env)


_loaded = False


def load(before=None):
    """Imports third-party code normally, then the repository's package with bytecode caching defeated."""
    global _loaded
    if _loaded:
        return
    import requests, urllib3, http.client, zipfile, json, fnmatch, bz2, lzma, gzip  # noqa
    import xml.etree.ElementTree  # noqa
    try:
        import fences.core.util  # noqa
    except ImportError:
        pass
    import urllib3 as _u
    _u.disable_warnings()
    import argparse, collections, dataclasses, email, hashlib, logging, pickle, queue, random, select, subprocess  # noqa
    import tempfile, threading, uuid, datetime, encodings.idna, copy, html, html.parser, io, re, shutil, string  # noqa
    import concurrent.futures, contextvars, functools, itertools, asyncio, multiprocessing, warnings  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    sys.path.insert(0, REPO)
    from . import world
    world.install()
    if before is not None:
        before()
    import aas_test_engines
    import aas_test_engines.api, aas_test_engines.file, aas_test_engines.http, aas_test_engines.result  # noqa
    import aas_test_engines.config, aas_test_engines.__main__, aas_test_engines.opc  # noqa
    got = os.path.realpath(aas_test_engines.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"wrong package imported: {got}")
    import pkgutil
    import importlib
    for m in pkgutil.walk_packages(aas_test_engines.__path__, "aas_test_engines."):
        if m.name.split(".")[-1] != "__main__":
            importlib.import_module(m.name)
    _loaded = True
