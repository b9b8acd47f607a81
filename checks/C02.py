import C01


def run(ctx):
    C01.enum(ctx, (('hmac', 0), ('hmacdeep', ctx.pick(20, 200))))
    C01.walks(ctx, 'TRUE', ctx.pick(200, 4000))
