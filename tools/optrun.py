"""Running documents through optimiser configurations and projecting the results."""
import concurrent.futures
import random

import lib
import svgmodel

# jobs of the default preset, in its order
DEFAULT_JOBS = """remove_doctype remove_x_m_l_proc_inst remove_comments remove_deprecated_attrs remove_metadata remove_editors_n_s_data
cleanup_attrs merge_styles inline_styles minify_styles cleanup_ids remove_useless_defs cleanup_numeric_values convert_colors
remove_unknowns_and_defaults remove_non_inheritable_group_attrs remove_useless_stroke_and_fill cleanup_enable_background
remove_hidden_elems remove_empty_text convert_shape_to_path convert_ellipse_to_circle move_elems_attrs_to_group
move_group_attrs_to_elems collapse_groups apply_transforms convert_path_data convert_transform remove_empty_attrs
remove_empty_containers remove_unused_n_s merge_paths sort_attrs sort_defs_children remove_desc""".split()
# jobs configured by a plain boolean
BOOL_JOBS = set("""remove_doctype remove_x_m_l_proc_inst remove_metadata merge_styles remove_useless_defs remove_non_inheritable_group_attrs
cleanup_enable_background convert_ellipse_to_circle move_elems_attrs_to_group move_group_attrs_to_elems collapse_groups
remove_empty_attrs remove_empty_containers remove_unused_n_s sort_defs_children""".split())


def camel(s):
    p = s.split("_")
    return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])


def single(job, params=None):
    """A configuration with only this job."""
    if params is None:
        params = True if job in BOOL_JOBS else {}
    return {camel(job): params}


def drive(c, drv, texts, runs, name="opt"):
    """runs: [(name, cfg)]; returns records with one outcome for each run."""
    return c.drive(drv, [{"svg": s, "runs": [{"cfg": cfg, "opts": {}} for _, cfg in runs]} for s in texts], name=name)


def _read(args):
    """Before and distinct afters of one record, as documents of the specification."""
    svg, outs, names = args
    problems, afters, meta = [], [], []
    before = svgmodel.read(svg)
    seen = {}
    for name, x in zip(names, outs):
        if "svg" not in x:
            problems.append((name, "no output: " + str(x)[:300], ""))
            continue
        if x["svg"] in seen:
            continue
        seen[x["svg"]] = name
        try:
            doc = svgmodel.read(x["svg"])
        except svgmodel.Unreadable as ex:
            problems.append((name, "unreadable output: %s" % ex, x["svg"]))
            continue
        afters.append({"doc": doc})
        meta.append((name, x["svg"]))
    return before, afters, meta, problems


def project(recs, runs, extra=None):
    """Reads all texts (in parallel).  Returns records for validation and what they came from."""
    names = [n for n, _ in runs]
    out, meta, problems = [], [], []
    jobs = []
    for r in recs:
        if "crash" in r:
            problems.append((r["svg"], "driver", r["crash"], ""))
        else:
            jobs.append((r["svg"], r["outs"], names))
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        for (svg, _, _), (before, afters, mm, probs) in zip(jobs, ex.map(_read, jobs, chunksize=100)):
            for name, why, text in probs:
                problems.append((svg, name, why, text))
            out.append({"before": before, "after": afters})
            meta.append((svg, mm))
    return out, meta, problems


def sample(items, n, seed):
    if len(items) <= n:
        return list(items)
    return random.Random(seed).sample(items, n)
