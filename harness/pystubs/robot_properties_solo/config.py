from toyrobots import build


class Solo8Config(object):
    @staticmethod
    def buildRobotWrapper():
        return build(['FL', 'FR', 'HL', 'HR'], False)


class Solo12Config(object):
    @staticmethod
    def buildRobotWrapper():
        return build(['FL', 'FR', 'HL', 'HR'], True)
