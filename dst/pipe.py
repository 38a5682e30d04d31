"""Driving the code under test through its public interface."""


def parse(path):
    from emva1288.process.parser import ParseEmvaDescriptorFile
    return ParseEmvaDescriptorFile(path)


def load(images, **kw):
    from emva1288.process.loader import LoadImageData
    return LoadImageData(images, **kw)


def data(loaded):
    from emva1288.process.data import Data1288
    return Data1288(loaded)


def results(d, **kw):
    from emva1288.process.results import Results1288
    return Results1288(d, **kw)


def process(path):
    """descriptor -> campaign data (a dictionary)"""
    return data(load(parse(path).images).data).data
