WALK = '''CONSTANTS Init0 <- KeyMapInit Ops <- KeyMapOps Apply <- KeyMapApply
          NObj = 2 Depth = 40
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    w = ctx.generate('KeyMapGen', cfg_text=WALK, label='walk', num=ctx.pick(1000, 10000), depth=42)
    ctx.conform('KeyMapTrace', 'keymap', w, label='walk')
