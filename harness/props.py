"""All properties."""
PROPS = {}
import gen_draw, gen_new, gen_xform, gen_color, gen_pal, gen_misc, gen_guard, gen_file, gen_text, gen_frac, gen_curve, gen_solid, gen_chart, gen_launch, gen_bytes, gen_attr, gen_math, gen_hue, gen_point  # noqa: E402
for _m in (gen_draw, gen_new, gen_xform, gen_color, gen_pal, gen_misc, gen_guard, gen_file, gen_text, gen_frac, gen_curve, gen_solid, gen_chart, gen_launch, gen_bytes, gen_attr, gen_math, gen_hue, gen_point):
    for _p in _m.PROPS:
        PROPS[_p.name] = _p
import also  # noqa: E402
for _n, _l in also.ALSO.items():
    PROPS[_n].also = _l
