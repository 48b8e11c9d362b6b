"""Records example-runs of the Python generator, whose values are logged."""
import json
import multiprocessing
import sys
import warnings

import reccli


def run(job):
    from click.testing import CliRunner

    from coinflip import generators
    from coinflip.cli.commands import main

    log, tested = [], []
    orig = generators.Python

    class Logged(orig):
        def __next__(self):
            v = super().__next__()
            log.append(v)
            return v

    generators.Python = Logged
    reccli.install_stubs(["fail"] * 15, tested)
    args = ["example-run"]
    if job["n"] is not None:
        args += ["--length", str(job["n"])]
    if job["e"]:
        args += ["--example", "Python"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = CliRunner().invoke(main, args)
    o = reccli.parse_output(r.output)
    return json.dumps(dict(id=job["id"], n=512 if job["n"] is None else job["n"],
                           seen=[int(x) for x in log], tested=[[int(x) for x in t] for t in tested],
                           rows=o["rows"], omit=o["omit"], after=o["after"], exit=r.exit_code))


def main():
    with open(sys.argv[1]) as f:
        jobs = [json.loads(x) for x in f]
    import coinflip.cli.commands  # noqa: F401
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        out = pool.map(run, jobs, chunksize=1)
    with open(sys.argv[2], "w") as f:
        f.writelines(x + "\n" for x in out)


if __name__ == "__main__":
    main()
