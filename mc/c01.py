from . import products


def main(tier):
    return products.main("C01", tier, False)
