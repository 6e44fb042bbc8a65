from drivers import scene


def run(c):
    scene.run(c, "C04")
