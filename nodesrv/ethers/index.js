// stand-in for ethers 5; everything asynchronous goes through the test control
import { act } from '@bancor/carbon-sdk';
const isAddr = (a) => typeof a === 'string' && /^0x[0-9a-fA-F]{40}$/.test(a);
class Contract {
  constructor(addr, abi, provider) {
    if (!isAddr(addr)) throw new Error('invalid address ' + addr);
    for (const sig of abi) {
      const name = /function (\w+)/.exec(sig)[1];
      this[name] = (...args) => act('erc20.' + name, [addr, ...args]);
    }
  }
}
const Wallet = { fromMnemonic: (m) => { if (!m) throw new Error('no mnemonic'); return { address: '0xWALLET:' + m, connect: () => ({}) }; } };
export const ethers = { Contract, Wallet, utils: { getAddress: (a) => { if (!isAddr(a)) throw new Error('invalid address ' + a); return '0x' + a.slice(2).toUpperCase(); } } };
export default ethers;
