from . import symbol  # noqa: F401
from . import request  # noqa: F401
from . import history  # noqa: F401
from . import object, picture, output, tools, kit  # noqa: F401
