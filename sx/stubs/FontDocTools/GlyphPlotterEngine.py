"""Stand-in for FontDocTools.GlyphPlotterEngine (not installable offline): records what is drawn."""


class Margins:
    def __init__(self, left, top, right, bottom):
        self.left = left
        self.top = top
        self.right = right
        self.bottom = bottom


class CoordinateSystem:
    content = "content"
    contentMargins = "contentMargins"
    frame = "frame"


class PaintMode:
    fill = "fill"
    stroke = "stroke"
    fillAndStroke = "fillAndStroke"


class BoundsAggregator:
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(bounds)


class GlyphPlotterEngine:
    def __init__(self):
        self._boundsAggregator = BoundsAggregator()
        self._contentMargins = Margins(0, 0, 0, 0)
        self._frameMargins = Margins(0, 0, 0, 0)
        self._labelFont = "font"
        self._labelFontSize = (0, 0)
        self._fillColor = "fill0"
        self._fillOpacity = "fop0"
        self._strokeWidth = "sw0"
        self._strokeColor = "sc0"
        self._strokeOpacity = "sop0"
        self._strokeDash = None
        self._content = []
        self._calls = []
        self._pen = (0, 0)

    def setContentMargins(self, m):
        self._contentMargins = m

    def setFrameMargins(self, m):
        self._frameMargins = m

    def setLabelFontSize(self, a, b):
        self._labelFontSize = (a, b)

    def setFillColor(self, c):
        self._fillColor = c

    def setFillOpacity(self, o):
        self._fillOpacity = o

    def setStrokeWidth(self, w):
        self._strokeWidth = w

    def setStrokeColor(self, c):
        self._strokeColor = c

    def setStrokeOpacity(self, o):
        self._strokeOpacity = o

    def setStrokeDash(self, d):
        self._strokeDash = d

    def _fillAttributes(self):
        return f"FILL[{self._fillColor};{self._fillOpacity}]"

    def _strokeAttributes(self):
        return f"STROKE[{self._strokeColor};{self._strokeWidth};{self._strokeOpacity};{self._strokeDash}]"

    def moveToXY(self, x, y):
        self._pen = (x, y)

    def drawCircle(self, cs, x, y, r, mode):
        self._calls.append(("circle", cs, x, y, r, mode, self._fillColor, self._strokeColor))

    def drawLabel(self, cs, x, y, gap, alignment, text):
        self._calls.append(("label", cs, x, y, alignment, text, self._fillColor))

    def drawArrow(self, cs, x0, y0, x1, y1, style, position):
        self._calls.append(("arrow", cs, x0, y0, x1, y1, style, position, self._strokeDash, self._strokeColor))
