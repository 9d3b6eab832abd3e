"""Stand-in for FontDocTools.Color (not installable offline): an RGB value."""


class Color:
    def __init__(self, red, green, blue):
        self.red = red
        self.green = green
        self.blue = blue

    def __str__(self):
        return f"rgb({self.red},{self.green},{self.blue})"
