class Color:
    """Only remembers the channels it was given."""

    def __init__(self, red, green, blue):
        self.red, self.green, self.blue = red, green, blue

    @property
    def channels(self):
        return (self.red, self.green, self.blue)

    def __str__(self):
        return f"rgb({self.red},{self.green},{self.blue})"
