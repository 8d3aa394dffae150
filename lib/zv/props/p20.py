"""P20: strided array views are read and written only within the view."""
from zv.core import CppSub

RULE = ("copy: two buffers of exactly the needed size, each with a view of a generated layout (0-5 dims, permuted axes, steps, row padding, offset, for sources also overlapping rows), sub-views of "
        "generated offset and shape, copyView / fillView, compared element by element with a copy in index order, everything outside of the view included. history: a dataset of a generated configuration "
        "(4 formats, 8 data types incl. complex, all codecs) with 2-10 region writes from views, scalar and chunk writes, removals and re-opens, each followed by a region read into a view. Both run under "
        "AddressSanitizer and UBSan with exactly sized heap buffers. Non-trivial: a view that is not plain C order takes part (history: and some chunk is written partially).")
TECHNIQUE = "property-based testing (own generator with shrinking) of the C++ API against an element-wise model, canaries outside of the views, AddressSanitizer and UBSan as memory oracle"
ASSUMPTIONS = ["strides are positive, as the property says; destination views do not overlap themselves"]

SUBS = [CppSub("copy", "ds_views", "copy", quick=40000, san="asan"),
        CppSub("history", "ds_views", "history", quick=6000, san="asan")]
