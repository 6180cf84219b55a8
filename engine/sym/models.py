import mcore, mstr, mvec, mfmt, mmap, msym, mpath  # noqa: F401
from mcore import STOP_CRATES  # noqa: F401
import mio  # noqa
import masync
import mfs
import mcli  # noqa
import mnet  # noqa
import mproc  # noqa
