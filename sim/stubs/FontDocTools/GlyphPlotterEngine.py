"""Stand-in for the drawing engine: keeps the graphics state and records elements, as the real one does."""
import enum


class PaintMode(enum.Enum):
    fill = 1
    stroke = 2
    fillAndStroke = 3


class CoordinateSystem(enum.Enum):
    frame = 1
    content = 2
    contentMargins = 3


class Margins:
    def __init__(self, left, top, right, bottom):
        self.left, self.top, self.right, self.bottom = left, top, right, bottom


class _BoundsAggregator:
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(bounds)


class GlyphPlotterEngine:
    def __init__(self):
        self._boundsAggregator = _BoundsAggregator()
        self._content = []
        self._pen = (0, 0)
        self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash = 1, None, None, None
        self._fillColor, self._fillOpacity = None, None
        self._labelFont, self._labelFontSize = "sans", 10
        self._contentMargins = self._frameMargins = Margins(0, 0, 0, 0)

    def setContentMargins(self, m):
        self._contentMargins = m

    def setFrameMargins(self, m):
        self._frameMargins = m

    def setLabelFontSize(self, contentSize, marginSize):
        self._labelFontSize = contentSize

    def setStrokeWidth(self, v):
        self._strokeWidth = v

    def setStrokeColor(self, v):
        self._strokeColor = v

    def setStrokeOpacity(self, v):
        self._strokeOpacity = v

    def setStrokeDash(self, v):
        self._strokeDash = v

    def setFillColor(self, v):
        self._fillColor = v

    def setFillOpacity(self, v):
        self._fillOpacity = v

    def _strokeAttributes(self):
        return (f"stroke='{self._strokeColor}' stroke-width='{self._strokeWidth}' "
                f"stroke-opacity='{self._strokeOpacity}' stroke-dasharray='{self._strokeDash}'")

    def _fillAttributes(self):
        return f"fill='{self._fillColor}' fill-opacity='{self._fillOpacity}'"

    def moveToXY(self, x, y):
        self._pen = (x, y)

    def drawCircle(self, coordinates, x, y, radius, paintMode):
        a = self._fillAttributes() if paintMode is PaintMode.fill else f"fill='none' {self._strokeAttributes()}"
        self._content.append(f"<circle cx='{x}' cy='{y}' r='{radius}' {a}/>")

    def drawLabel(self, coordinates, x, y, z, alignment, text):
        self._content.append(f"<text x='{x}' y='{y}' {self._fillAttributes()}>{text}</text>")

    def drawArrow(self, coordinates, x0, y0, x1, y1, style, position):
        self._content.append(f"<line x1='{x0}' y1='{y0}' x2='{x1}' y2='{y1}' {self._strokeAttributes()}/>")
