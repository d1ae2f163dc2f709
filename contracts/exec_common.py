class Cov:
    def start(self):
        pass

    def stop(self):
        pass

    def save(self):
        pass

    def combine(self):
        pass

    def xml_report(self, outfile=None):
        pass

    def report(self):
        pass


class Parsed:
    """parsed command line, nothing given"""
    i = I = v = L = f = c = r = u = a = p = s = S = cov = False
    md_viewer = diff_tool = cmd = None
    test_cases = ["test"]

    def __contains__(self, name):
        return hasattr(self, name)
