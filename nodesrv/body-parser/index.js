import { await_body } from 'express';
export default { json: () => await_body };
export const json = () => await_body;
