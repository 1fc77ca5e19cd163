import sys

from vp.core import main

sys.exit(main())
