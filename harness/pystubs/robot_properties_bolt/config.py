from toyrobots import build


class BoltConfig(object):
    @staticmethod
    def buildRobotWrapper():
        return build(['FL', 'FR'], True)
