"""What each kind of job records."""
import away
import crash
import daemonjobs
import gen
import globs
import life
import locks
import model


def run(job, root, tag, rng):
    kind = job["kind"]
    if kind in gen.KINDS:
        world = gen.play(root, tag, rng, kind, job.get("steps", 8))
        return {"trace": world.trace("%s/%d" % (kind, job["n"])),
                "story": world.story()}
    if kind.partition("-")[0] == "life":
        world = life.play(root, tag, rng, kind, job.get("steps", 12))
        return {"trace": world.trace("%s/%d" % (kind, job["n"])),
                "story": world.story()}
    if kind == "model":
        world = model.play(root, tag, rng, job)
        return {"trace": world.trace("%s/%d" % (job["model"], job["n"])),
                "story": world.story()}
    if kind.partition("-")[0] == "away":
        world = away.play(root, tag, rng, kind, job.get("steps", 6))
        return {"trace": world.trace("%s/%d" % (kind, job["n"])),
                "story": world.story()}
    if kind == "glob":
        world = globs.play(root, tag, rng, job)
        return {"trace": world.trace("%s/%d" % (kind, job["n"])),
                "story": world.story()}
    if kind == "lock":
        return {"results": locks.play(root, tag, rng, job)}
    if kind == "crash":
        return {"results": crash.play(root, tag, rng, kind, job)}
    if kind == "crash-init":
        return {"results": crash.play_init(root, tag, rng, kind, job)}
    if kind == "crash-reset":
        return {"results": crash.play_reset(root, tag, rng, kind, job)}
    if kind == "daemon":
        return daemonjobs.play(root, tag, rng, job)
    raise ValueError(kind)
