"""The properties: functions whose contracts carry them, and the harness that searches for inputs."""
LIBS = ["mem.mlw", "str.mlw", "tok.mlw", "pool.mlw", "nmbr.mlw", "veri.mlw"]

PROPS = {
 'S01': dict(functions=['len', 'mid', 'seg', 'left', 'right', 'string', 'space', 'tempAlloc', 'pushTempAlloc'],
             level='proof', hunt='strings', bounded=[]),
 'S02': dict(functions=['instr', 'rinstr'], level='proof', hunt='strings', bounded=[]),
 'S03': dict(functions=['numEntries', 'entry', 'entryPosition', 'lookup'], level='proof', hunt='strings', bounded=[]),
 'S04': dict(functions=['let', 'cat', 'makeTempAlloc', 'freeTempAlloc', 'chr', 'ascii_', 'xlate', 'tempAlloc', 'pushTempAlloc'],
             level='proof', hunt='strings', bounded=[]),
 'S05': dict(functions=[], level='exploration', hunt='strings', bounded=['edit', 'str', 'val']),
 'N01': dict(functions=['nmbrLen', 'nmbrAllocLen', 'nmbrZapLen', 'nmbrCpy', 'nmbrNCpy', 'nmbrEq', 'nmbrTempAlloc', 'nmbrMakeTempAlloc', 'nmbrLet', 'nmbrCat',
                        'nmbrSeg', 'nmbrMid', 'nmbrLeft', 'nmbrRight', 'nmbrSpace', 'nmbrAddElement'],
             level='proof', hunt='nmbr', bounded=['nmbrLet']),
 'N02': dict(functions=['nmbrInstr', 'nmbrRevInstr', 'nmbrElementIn', 'nmbrUnion', 'nmbrIntersection', 'nmbrSetMinus', 'nmbrExtractVars'],
             level='proof', hunt='nmbr', bounded=[]),
 'T01': dict(functions=['whiteSpaceLen', 'rawWhiteSpaceLen', 'tokenLen', 'rawTokenLen', 'proofTokenLen', 'countLines', 'texDefWhiteSpaceLen', 'texDefTokenLen'],
             level='proof', hunt='tok', bounded=[]),
 'M01': dict(functions=['poolMalloc', 'poolFixedMalloc', 'poolFree', 'addToUsedPool', 'memFreePoolPurge', 'getPoolStats'],
             level='proof', hunt='pool', bounded=[]),
 'V01': dict(functions=[], level='exploration', hunt='vp', bounded=['assignVar', 'verifyProof', 'parseProof', 'parseCompressedProof'], bounded_s=40),
 'V02': dict(functions=[], level='exploration', hunt='vp', bounded=['assignVar', 'verifyProof', 'parseProof', 'parseCompressedProof'], bounded_s=40),
 'V03': dict(functions=[], level='exploration', hunt='vp', bounded=['assignVar'], bounded_s=40),
 'V04': dict(functions=[], level='exploration', hunt='vp', bounded=['verifyProofs', 'verifyProof'], bounded_s=40),
 'V05': dict(functions=['assignVar'], level='proof', hunt='av', bounded=[]),
}
