"""development helper: small edits of auburn's sources.  mutate.py list > muts.json"""
import json, os, re, sys

REPO = "/repo"
FILES = """src/col/transform.rs src/col/bevy_transform.rs src/col/ball.rs src/col/point.rs src/col2d/mod.rs
src/col2d/collider2d.rs src/col2d/detection/collides.rs src/col2d/detection/distance_to.rs
src/col2d/detection/extreme_point.rs src/col2d/detection/penetrates.rs src/col2d/detection/sdf.rs
src/col2d/detection/sdfv.rs src/col2d/detection/sdfv_common.rs src/col2d/detection/sdfv_minkowski.rs
src/col2d/shape/mod.rs src/col2d/shape/point2d.rs src/col2d/shape/tilemap.rs src/col2d/shape/ball2d/mod.rs
src/col2d/shape/ball2d/v_ball2d.rs src/col2d/shape/ball2d/v_point.rs src/col2d/shape/box2d/mod.rs
src/col2d/shape/box2d/v_ball.rs src/col2d/shape/box2d/v_point.rs src/col2d/shape/poly2d/mod.rs
src/col2d/shape/rounded_box2d/mod.rs src/col2d/shape/rounded_box2d/v_point.rs
src/col2d/shape/local_minkowski_diff/mod.rs src/col2d/shape/local_minkowski_diff/v.rs
src/col2d/transformation2d/mod.rs src/col2d/transformation2d/transform2d.rs
src/col2d/transformation2d/axis_transform2d.rs src/col2d/transformation2d/translate2d.rs
src/col2d/transformation2d/bevy_transform.rs src/utils/approx.rs src/utils/publisher.rs src/utils/rect2.rs src/lib.rs""".split()

RULES = [
    (r" <= ", [" < ", " >= "]), (r" >= ", [" > ", " <= "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"(?<=[(=,{] )-(?=[a-z(])", [""]), (r"(?<=\()-(?=[a-z(])", [""]), (r"^(\s*)-(?=[a-z(])", [r"\1"]),
    (r"\.x\b(?!\()", [".y"]), (r"\.y\b(?!\()", [".x"]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.abs\(\)", [""]), (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
    (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b0\.5\b", ["1.0"]), (r"\b2\.0\b", ["1.0"]),
    (r"\b20\b", ["3"]), (r"\b16\b", ["15"]), (r"\.apply\(", [".unapply(", ".apply_normal("]), (r"\.unapply\(", [".apply("]),
    (r"\.apply_normal\(", [".unapply_normal(", ".apply("]), (r"\.unapply_normal\(", [".apply_normal(", ".unapply("]),
    (r"\.inverse\(\)", [""]), (r"\b1 \+ ", ["0 + "]), (r" \+ 1\b", [" + 0", " + 2"]), (r"\b0\b(?!\.)(?=[,;)\]])", ["1"]),
    (r"\.\.=", [".."]), (r"\.rev\(\)", [""]), (r"\.perp\(\)", [""]), (r"Vec2::X\b", ["Vec2::Y"]), (r"Vec2::Y\b", ["Vec2::X"]),
    (r"Vec2::ZERO\b", ["Vec2::ONE"]), (r"Vec2::ONE\b", ["Vec2::ZERO"]), (r"COMPUTE_PENETRATION(?=[ )&|,}])", ["COMPUTE_DISTANCE"]), (r"COMPUTE_DISTANCE(?=[ )&|,}])", ["COMPUTE_PENETRATION"]),
    (r"\.length\(\)", [".length_squared()"]), (r"\.length_squared\(\)", [".length()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\bself\.(?=\w+ [-+*/])", ["other."]), (r"\bother\.", ["self."]), (r"\.round_to_i32", [".floor_to_i32"]),
    (r"\.sin\b", [".cos"]), (r"\.cos\b", [".sin"]), (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]), (r"\ba\b(?=[.,)])", ["b"]), (r"\bb\b(?=[.,)])", ["a"]),
]
DEL = re.compile(r"^\s+(?!let |return |use |pub |type |const |fn |break|continue|\}|#|assert)[\w*][^{}]*;\s*$")


def code_lines(f):
    out = []
    skip = False
    for i, l in enumerate(open(os.path.join(REPO, f)).read().split("\n")):
        if re.match(r"#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if s.startswith(("//", "use ", "trace!", "info!", "warn!", "debug!", "error!", "#", "where", "impl", "pub trait", "pub use", "pub mod", "mod ", "macro_rules")):
            continue
        out.append((i, l))
    return out


def mutants():
    n = 0
    for f in FILES:
        seen = set()
        for i, l in code_lines(f):
            body = l.split("//")[0]
            for rx, subs in RULES:
                for m in re.finditer(rx, body):
                    for s in subs:
                        new = body[: m.start()] + m.expand(s) + body[m.end() :]
                        if new != body and (i, new) not in seen and "->" not in body[m.start() : m.end() + 1]:
                            seen.add((i, new))
                            yield {"file": f, "line": i + 1, "old": l, "new": new}
            if DEL.match(body):
                yield {"file": f, "line": i + 1, "old": l, "new": ""}


if __name__ == "__main__":
    ms = list(mutants())
    for k, m in enumerate(ms):
        m["id"] = k
    json.dump(ms, open(sys.argv[2], "w"), indent=0)
    print(len(ms))
