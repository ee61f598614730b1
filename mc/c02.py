from . import products


def main(tier):
    return products.main("C02", tier, True)
