import core
import loading  # noqa: F401
import host  # noqa: F401
import remote  # noqa: F401
import script  # noqa: F401
import resources  # noqa: F401
import content  # noqa: F401
import av  # noqa: F401
import spell  # noqa: F401
import player  # noqa: F401
import settings  # noqa: F401
import gui  # noqa: F401

PROPS = dict(core.PROPS)
